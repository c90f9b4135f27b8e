J='jpylyzer.py'; BV='boxvalidator.py'; EP='etpatch.py'; MX='mix.py'; BC='byteconv.py'; SH='shared.py'
EDITS={}
EDITS['fail-message-helper']=[(J,'''        if isinstance(ex, MemoryError):
            failureMessage = "memory error (file size too large)"
        elif isinstance(ex, IOError):
            failureMessage = "I/O error (cannot open file)"
        elif isinstance(ex, RuntimeError):
            failureMessage = "runtime error, please report to developers by creating " + \\
                             "an issue at https://github.com/openpreserve/jpylyzer/issues"
        else:
            failureMessage = "unknown error, please report to developers by creating " + \\
                             "an issue at https://github.com/openpreserve/jpylyzer/issues"
''','''        failureMessage = describeFailure(ex)
'''),(J,'''def checkOneFile(path,''','''ISSUES_URL = "https://github.com/openpreserve/jpylyzer/issues"


def describeFailure(ex):
    """Return failure message for exception."""
    reportText = "please report to developers by creating an issue at " + ISSUES_URL
    for excType, message in ((MemoryError, "memory error (file size too large)"),
                             (IOError, "I/O error (cannot open file)"),
                             (RuntimeError, "runtime error, " + reportText)):
        if isinstance(ex, excType):
            return message
    return "unknown error, " + reportText


def checkOneFile(path,''')]
EDITS['handlers-split']=[(J,'''    except Exception as ex:
        fileIsValid = False
        success = False

        if isinstance(ex, MemoryError):
            failureMessage = "memory error (file size too large)"
        elif isinstance(ex, IOError):
            failureMessage = "I/O error (cannot open file)"
        elif isinstance(ex, RuntimeError):
            failureMessage = "runtime error, please report to developers by creating " + \\
                             "an issue at https://github.com/openpreserve/jpylyzer/issues"
        else:
            failureMessage = "unknown error, please report to developers by creating " + \\
                             "an issue at https://github.com/openpreserve/jpylyzer/issues"

        tests = ET''','''    except MemoryError:
        failureMessage = "memory error (file size too large)"
    except OSError:
        failureMessage = "I/O error (cannot open file)"
    except RuntimeError:
        failureMessage = ("runtime error, please report to developers by creating "
                          "an issue at https://github.com/openpreserve/jpylyzer/issues")
    except Exception:
        failureMessage = ("unknown error, please report to developers by creating "
                          "an issue at https://github.com/openpreserve/jpylyzer/issues")
    else:
        success = True

    if not success:
        fileIsValid = False
        tests = ET'''),(J,'''    # Initialise success flag
    success = True
''','''    # Initialise success flag
    success = False
''')]
EDITS['build-report-helper']=[(J,'''    # Add status info
    statusInfo.appendChildTagWithText("success", str(success))
    if not success:
        statusInfo.appendChildTagWithText("failureMessage", failureMessage)

    # Append all results to root
    root.append(fileInfo)
    root.append(statusInfo)

    root.appendChildTagWithText("isValid", str(fileIsValid))
    # Set 'format' attribute of isValid element
    root.findall(".//isValid")[0].set("format", validationFormat)

    root.append(tests)
    root.append(characteristics)
    extension = ET.Element('propertiesExtension')
    if mixFlag != 0:
        root.append(extension)
        if validationFormat in ['jp2', 'jph'] and fileIsValid:
            extension.append(mixProperties)
    root.append(warnings)

    return root
''','''    # Add status info
    statusInfo.appendChildTagWithText("success", str(success))
    if failureMessage is not None:
        statusInfo.appendChildTagWithText("failureMessage", failureMessage)

    isValidElement = ET.Element("isValid", {"format": validationFormat})
    isValidElement.text = str(fileIsValid)

    # Append all results to root
    parts = [fileInfo, statusInfo, isValidElement, tests, characteristics]
    if mixFlag:
        extension = ET.Element('propertiesExtension')
        if fileIsValid and validationFormat in ('jp2', 'jph'):
            extension.append(mixProperties)
        parts.append(extension)
    parts.append(warnings)
    for part in parts:
        root.append(part)

    return root
'''),(J,'''    success = True
    # Init''','''    success = True
    failureMessage = None
    # Init''')]
EDITS['fileinfo-helper']=[(J,'''    fileInfo = ET.Element('fileInfo')
    statusInfo''','''    fileInfo = describeFile(path)
    statusInfo'''),(J,'''    # File name and path
    fileName = os.path.basename(path)
    filePath = os.path.abspath(path)

    # If file name / path contain any surrogate pairs, remove them to
    # avoid problems when writing to XML
    fileNameCleaned = stripNonXMLCharacters(stripSurrogatePairs(fileName))
    filePathCleaned = stripNonXMLCharacters(stripSurrogatePairs(filePath))

    # Produce some general tool and file meta info
    fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
    fileInfo.appendChildTagWithText("filePath", filePathCleaned)
    try:
        fileSize = os.path.getsize(path)
    except OSError:
        # Cannot be accessed (e.g. dangling link): reported below as I/O error
        fileSize = 0
    fileInfo.appendChildTagWithText("fileSizeInBytes", str(fileSize))
    try:
        dt = os.path.getmtime(path)
        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
    except (ValueError, OverflowError, OSError):
        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
        # Workaround: replace by lowest possible value (typically 1 Jan 1970)
        dt = 0
        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
    fileInfo.appendChildTagWithText(
        "fileLastModified", lastModifiedDate)

''',''),(J,'''def checkOneFile(path,''','''def cleanForXML(text):
    """Clean."""
    return stripNonXMLCharacters(stripSurrogatePairs(text))


def lastModified(path):
    """Date of last change."""
    try:
        return datetime.datetime.fromtimestamp(os.path.getmtime(path)).isoformat()
    except (ValueError, OverflowError, OSError):
        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
        return datetime.datetime.fromtimestamp(0).isoformat()


def sizeOf(path):
    """Size or 0."""
    try:
        return os.path.getsize(path)
    except OSError:
        return 0


def describeFile(path):
    """Return fileInfo."""
    fileInfo = ET.Element('fileInfo')
    for tag, value in (("fileName", cleanForXML(os.path.basename(path))),
                       ("filePath", cleanForXML(os.path.abspath(path))),
                       ("fileSizeInBytes", str(sizeOf(path))),
                       ("fileLastModified", lastModified(path))):
        fileInfo.appendChildTagWithText(tag, value)
    return fileInfo


def checkOneFile(path,''')]
EDITS['root-box-dict']=[(J,'''        # Set root box according to validation format
        if validationFormat in ['jp2', 'jph']:
            boxType = 'JP2'
        elif validationFormat in ['j2c', 'jhc']:
            boxType = 'contiguousCodestreamBox'

        # Create dictionary with BoxValidator options
        bvOptions = {}
        bvOptions['validationFormat'] = validationFormat
        bvOptions['verboseFlag'] = verboseFlag
        bvOptions['nullxmlFlag'] = nullxmlFlag
        bvOptions['packetmarkersFlag'] = packetmarkersFlag
''','''        boxType = ROOT_BOX_TYPES[validationFormat]

        # Create dictionary with BoxValidator options
        bvOptions = dict(validationFormat=validationFormat, verboseFlag=verboseFlag,
                         nullxmlFlag=nullxmlFlag, packetmarkersFlag=packetmarkersFlag)
'''),(J,'''# list of existing files''','''# Root box for each validation format
ROOT_BOX_TYPES = {'jp2': 'JP2', 'jph': 'JP2',
                  'j2c': 'contiguousCodestreamBox', 'jhc': 'contiguousCodestreamBox'}

# list of existing files''')]
EDITS['remap-literals']=[(J,'''    yesNoMap = {}
    yesNoMap[0] = "no"
    yesNoMap[1] = "yes"
''','''    yesNoMap = {0: "no", 1: "yes"}
'''),(J,'''    enumerationsMap['sop'] = yesNoMap
    enumerationsMap['eph'] = yesNoMap
    enumerationsMap['multipleComponentTransformation'] = yesNoMap
    enumerationsMap['codingBypass'] = yesNoMap
    enumerationsMap['resetOnBoundaries'] = yesNoMap
    enumerationsMap['termOnEachPass'] = yesNoMap
    enumerationsMap['vertCausalContext'] = yesNoMap
    enumerationsMap['predTermination'] = yesNoMap
    enumerationsMap['segmentationSymbols'] = yesNoMap
''','''    for flag in ('sop', 'eph', 'multipleComponentTransformation', 'codingBypass',
                 'resetOnBoundaries', 'termOnEachPass', 'vertCausalContext',
                 'predTermination', 'segmentationSymbols'):
        enumerationsMap[flag] = yesNoMap
'''),(J,'''    orderMap = {}
    orderMap[0] = "LRCP"
    orderMap[1] = "RLCP"
    orderMap[2] = "RPCL"
    orderMap[3] = "PCRL"
    orderMap[4] = "CPRL"
''','''    orderMap = dict(enumerate(["LRCP", "RLCP", "RPCL", "PCRL", "CPRL"]))
'''),(J,'''    enumerationsMap['htCodeBlocks'] = htCodeBlocksMap
    enumerationsMap['htSets'] = htSetsMap
    enumerationsMap['htRegion'] = htRegionMap
''','''    enumerationsMap.update({'htCodeBlocks': htCodeBlocksMap, 'htSets': htSetsMap,
                            'htRegion': htRegionMap})
''')]
EDITS['remap-module-constant']=[(J,'''        # Generate property values remap table
        remapTable = generatePropertiesRemapTable()

''',''),(J,'''        characteristics.makeHumanReadable(remapTable)''','''        characteristics.makeHumanReadable(PROPERTIES_REMAP_TABLE)'''),
(J,'''def fileToBytes(filename):''','''PROPERTIES_REMAP_TABLE = generatePropertiesRemapTable()


def fileToBytes(filename):''')]
EDITS['mmap-helper']=[(J,'''            if fileSize > sys.maxsize:
                # Report warning if file size exceeds system maximum size
                # on 32-bit Python
                msg = ("file " + filename + " too large to open (" +
                       str(round(fileSize / 1024**3, 1)) +
                       " GB). Try using 64-bit Python.")
                mmWarnings.append(msg)
                shared.printWarning(msg)
                fileData = ""
            elif str(e) == "cannot mmap an empty file":
                # mmap fails on empty files, so return empty string
                msg = "empty file " + filename
                mmWarnings.append(msg)
                shared.printWarning(msg)
                fileData = ""
''','''            msg = None
            if fileSize > sys.maxsize:
                # Report warning if file size exceeds system maximum size
                # on 32-bit Python
                sizeInGB = round(fileSize / 1024**3, 1)
                msg = "file {} too large to open ({} GB). Try using 64-bit Python.".format(
                    filename, sizeInGB)
            elif str(e) == "cannot mmap an empty file":
                # mmap fails on empty files, so return empty string
                msg = f"empty file {filename}"
            if msg is not None:
                mmWarnings.append(msg)
                shared.printWarning(msg)
                fileData = ""
'''),(J,'''            if platform == "win32":
                # Parameters for Windows may need further fine-tuning ...
                fileData = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            else:
                # This works for Linux (and Cygwin on Windows). Not too sure
                # about other platforms like Mac OS though
                fileData = mmap.mmap(
                    f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)
''','''            fileData = _mapReadOnly(f, platform)
'''),(J,'''def fileToMemoryMap(filename):''','''def _mapReadOnly(f, platform):
    """Map."""
    if platform == "win32":
        return mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
    return mmap.mmap(f.fileno(), 0, flags=mmap.MAP_SHARED, prot=mmap.PROT_READ)


def fileToMemoryMap(filename):''')]
EDITS['find-local-list']=[(J,'''    results = glob.glob(searchpattern)
    for f in results:
        if os.path.isfile(f):
            EXISTING_FILES.append(f)
''','''    EXISTING_FILES.extend(f for f in glob.glob(searchpattern) if os.path.isfile(f))
'''),(J,'''            if len(filesList) == 1 and os.path.isfile(filesList[0]):
                EXISTING_FILES.append(filesList[0])

            if len(filesList) > 1:
                for f in filesList:
                    if os.path.isfile(f):
                        EXISTING_FILES.append(f)
''','''            EXISTING_FILES.extend(filter(os.path.isfile, filesList))
''')]
EDITS['find-helpers']=[(J,'''            if not os.path.isabs(root):
                root = os.path.abspath(root)

            # Expand''','''            root = makeAbsolute(root)

            # Expand'''),(J,'''            if not os.path.isabs(root):
                root = os.path.abspath(root)

            if WILDCARD in root:
                pathAndFilePattern = os.path.split(root)
                path = pathAndFilePattern[0]
                filePattern = pathAndFilePattern[1]
                filenameAndExtension = os.path.splitext(filePattern)
                # input path contains wildcard
                if WILDCARD in path:
                    filepath = glob.glob(path)
                    # if filepath is a folder, get files in current directory
                    if len(filepath) == 1:
                        getFilesWithPatternFromTree(filepath[0], filePattern)
                    # if filepath is a list of files/folder
                    # get all files in the tree matching the file pattern
                    if len(filepath) > 1:
                        for f in filepath:
                            if os.path.isdir(f):
                                getFilesWithPatternFromTree(f, filePattern)
                # file name or extension contains wildcard
                elif WILDCARD in filePattern:
                    getFilesWithPatternFromTree(path, filePattern)
                elif WILDCARD in filenameAndExtension:
                    filenameAndExtension = os.path.splitext(filePattern)
                    extension = WILDCARD + filenameAndExtension[1]
                    getFilesWithPatternFromTree(path, extension)
            # get files in the current folder and sub dirs w/o wildcard in path
            elif os.path.isdir(root):
                getFilesFromTree(root)
''','''            recurseInto(makeAbsolute(root), WILDCARD)
'''),(J,'''def findFiles(recurse, paths):''','''def makeAbsolute(path):
    """Return absolute path."""
    return path if os.path.isabs(path) else os.path.abspath(path)


def recurseInto(root, wildcard):
    """Find files below root."""
    if wildcard not in root:
        # get files in the current folder and sub dirs w/o wildcard in path
        if os.path.isdir(root):
            getFilesFromTree(root)
        return

    path, filePattern = os.path.split(root)
    if wildcard not in path:
        # file name or extension contains wildcard
        getFilesWithPatternFromTree(path, filePattern)
        return

    filepath = glob.glob(path)
    for f in filepath:
        if len(filepath) == 1 or os.path.isdir(f):
            getFilesWithPatternFromTree(f, filePattern)


def findFiles(recurse, paths):''')]
EDITS['tree-scan']=[(J,'''    for dirname, dirnames, filenames in os.walk(rootDir):
        # Suppress directory names
        for subdirname in dirnames:
            # pylint: disable=W0612
            thisDirectory = os.path.join(dirname, subdirname)

        for filename in filenames:
            thisFile = os.path.join(dirname, filename)
            EXISTING_FILES.append(thisFile)
''','''    for dirname, _, filenames in os.walk(rootDir):
        EXISTING_FILES.extend([os.path.join(dirname, filename) for filename in filenames])
'''),(J,'''    for dirname, dirnames, _ in os.walk(rootDir):
        # Suppress directory names
        for subdirname in dirnames:
            thisDirectory = os.path.join(dirname, subdirname)
            # find files matching the pattern in current path
            searchpattern = os.path.join(thisDirectory, pattern)
            getFiles(searchpattern)
''','''    for dirname, dirnames, _ in os.walk(rootDir):
        for subdirname in dirnames:
            getFiles(os.path.join(dirname, subdirname, pattern))
''')]
EDITS['write-simplified']=[(J,'''    if not config.NO_PRETTY_XML_FLAG:
        # Make xml pretty
        xmlPretty = minidom.parseString(xmlOut).toprettyxml('    ')

        # Steps to get rid of xml declaration:
        # String to list
        xmlAsList = xmlPretty.split("\\n")
        # Remove first item (xml declaration)
        del xmlAsList[0]
        # Convert back to string
        xmlOut = "\\n".join(xmlAsList)

        # Write output
        codec.write(xmlOut)
    else:
        codec.write(xmlOut)
''','''    if not config.NO_PRETTY_XML_FLAG:
        xmlPretty = minidom.parseString(xmlOut).toprettyxml(indent='    ')
        # Get rid of xml declaration
        xmlOut = xmlPretty.split("\\n", 1)[1]

    codec.write(xmlOut)
''')]
EDITS['head-template']=[(J,'''    xmlHead = "<?xml version='1.0' encoding='UTF-8'?>\\n"
    xmlHead += "<jpylyzer xmlns=\\"" + nsString + "\\" "
    xmlHead += "xmlns:xsi=\\"" + XSI_NS_STRING + "\\" "
    xmlHead += "xsi:schemaLocation=\\"" + locSchemaString + "\\">\\n"

    out.write(xmlHead)
''','''    out.write("<?xml version='1.0' encoding='UTF-8'?>\\n")
    out.write('<jpylyzer xmlns="{}" xmlns:xsi="{}" xsi:schemaLocation="{}">\\n'.format(
        nsString, XSI_NS_STRING, locSchemaString))
''')]
EDITS['main-reorder']=[(J,'''    config.OUTPUT_VERBOSE_FLAG = args.outputVerboseFlag
    config.OUTPUT_PACKET_MARKERS_FLAG = args.reportPacketMarkersFlag
    config.EXTRACT_NULL_TERMINATED_XML_FLAG = args.extractNullTerminatedXMLFlag
    config.INPUT_RECURSIVE_FLAG = args.inputRecursiveFlag
    config.NO_PRETTY_XML_FLAG = args.noPrettyXMLFlag
    config.VALIDATION_FORMAT = args.fmt.lower()
    config.MIX_FLAG = args.mixFlag

    # Exit in case of unsupported Python version
    if config.PYTHON_VERSION.startswith("2"):
        msg = "Jpylyzer needs Python 3.x (Python 2.7 is no longer supported)"
        shared.errorExit(msg)
    # Exit if validation format is unknown
    if config.VALIDATION_FORMAT not in ['jp2', 'jph', 'j2c', 'jhc']:
        msg = "'" + config.VALIDATION_FORMAT + "'  is not a supported value for --format"
        shared.errorExit(msg)
    # Reset value of mixFlag to 0 if format is 'j2c' or 'jhc'
    if config.VALIDATION_FORMAT in ['j2c', 'jhc']:
        config.MIX_FLAG = 0
''','''    # Exit in case of unsupported Python version
    if config.PYTHON_VERSION.startswith("2"):
        shared.errorExit("Jpylyzer needs Python 3.x (Python 2.7 is no longer supported)")

    fmt = args.fmt.lower()
    if fmt in BOX_FORMATS:
        mixFlag = args.mixFlag
    elif fmt in CODESTREAM_FORMATS:
        # no MIX for codestreams
        mixFlag = 0
    else:
        shared.errorExit("'%s'  is not a supported value for --format" % fmt)

    applySettings(args, fmt, mixFlag)
'''),(J,'''def main():''','''BOX_FORMATS = ('jp2', 'jph')
CODESTREAM_FORMATS = ('j2c', 'jhc')


def applySettings(args, fmt, mixFlag):
    """Copy settings to config."""
    config.VALIDATION_FORMAT = fmt
    config.MIX_FLAG = mixFlag
    config.OUTPUT_VERBOSE_FLAG = args.outputVerboseFlag
    config.OUTPUT_PACKET_MARKERS_FLAG = args.reportPacketMarkersFlag
    config.EXTRACT_NULL_TERMINATED_XML_FLAG = args.extractNullTerminatedXMLFlag
    config.INPUT_RECURSIVE_FLAG = args.inputRecursiveFlag
    config.NO_PRETTY_XML_FLAG = args.noPrettyXMLFlag


def main():''')]
EDITS['settings-loop']=[(J,'''    config.OUTPUT_VERBOSE_FLAG = args.outputVerboseFlag
    config.OUTPUT_PACKET_MARKERS_FLAG = args.reportPacketMarkersFlag
    config.EXTRACT_NULL_TERMINATED_XML_FLAG = args.extractNullTerminatedXMLFlag
    config.INPUT_RECURSIVE_FLAG = args.inputRecursiveFlag
    config.NO_PRETTY_XML_FLAG = args.noPrettyXMLFlag
''','''    for setting, argument in (('OUTPUT_VERBOSE_FLAG', 'outputVerboseFlag'),
                              ('OUTPUT_PACKET_MARKERS_FLAG', 'reportPacketMarkersFlag'),
                              ('EXTRACT_NULL_TERMINATED_XML_FLAG', 'extractNullTerminatedXMLFlag'),
                              ('INPUT_RECURSIVE_FLAG', 'inputRecursiveFlag'),
                              ('NO_PRETTY_XML_FLAG', 'noPrettyXMLFlag')):
        setattr(config, setting, getattr(args, argument))
''')]
EDITS['parser-local']=[(J,'''    PARSER.add_argument('--nopretty',
                        action="store_true",
                        dest="noPrettyXMLFlag",
                        default=False,
                        help="suppress pretty-printing of XML output")
    PARSER.add_argument('--nullxml',
                        action="store_true",
                        dest="extractNullTerminatedXMLFlag",
                        default=False,
                        help="extract null-terminated XML content from XML and UUID boxes \\
                                (doesn't affect validation)")
    PARSER.add_argument('--recurse', '-r',
                        action="store_true",
                        dest="inputRecursiveFlag",
                        default=False,
                        help="when analysing a directory, recurse into subdirectories")
    PARSER.add_argument('--packetmarkers', '-p',
                        action="store_true",
                        dest="reportPacketMarkersFlag",
                        default=False,
                        help="Report packet-level codestream markers (plm, ppm, plt, ppt)")
    PARSER.add_argument('--verbose',
                        action="store_true",
                        dest="outputVerboseFlag",
                        default=False,
                        help="report test results in verbose format")
''','''    switches = [
        (('--nopretty',), "noPrettyXMLFlag", "suppress pretty-printing of XML output"),
        (('--nullxml',), "extractNullTerminatedXMLFlag",
         "extract null-terminated XML content from XML and UUID boxes"),
        (('--recurse', '-r'), "inputRecursiveFlag",
         "when analysing a directory, recurse into subdirectories"),
        (('--packetmarkers', '-p'), "reportPacketMarkersFlag",
         "Report packet-level codestream markers (plm, ppm, plt, ppt)"),
        (('--verbose',), "outputVerboseFlag", "report test results in verbose format"),
    ]
    for flags, dest, helpText in switches:
        PARSER.add_argument(*flags, action="store_true", dest=dest, help=helpText)
''')]
EDITS['checkfiles-options-dict']=[(J,'''        xmlElement = checkOneFile(path,
                                  config.VALIDATION_FORMAT,
                                  config.OUTPUT_VERBOSE_FLAG,
                                  config.OUTPUT_PACKET_MARKERS_FLAG,
                                  config.EXTRACT_NULL_TERMINATED_XML_FLAG,
                                  config.MIX_FLAG)

        # Write output to stdout
        writeElement(xmlElement, out)
''','''        # Write output to stdout
        writeElement(checkOneFile(path, **options), out)
'''),(J,'''    # Process the input files
''','''    options = {
        'validationFormat': config.VALIDATION_FORMAT,
        'verboseFlag': config.OUTPUT_VERBOSE_FLAG,
        'packetmarkersFlag': config.OUTPUT_PACKET_MARKERS_FLAG,
        'nullxmlFlag': config.EXTRACT_NULL_TERMINATED_XML_FLAG,
        'mixFlag': config.MIX_FLAG,
    }

    # Process the input files
''')]
EDITS['strip-regex-constant']=[(J,'''    return re.sub(
        '[^\\t\\n\\r\\x20-\\uD7FF\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]', '', ustring)
''','''    return NON_XML_CHARACTERS.sub('', ustring)
'''),(J,'''# list of existing files''','''NON_XML_CHARACTERS = re.compile('[^\\t\\n\\r\\x20-\\uD7FF\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]')

# list of existing files''')]
EDITS['human-get']=[(EP,'''            try:
                # If tag is in enumerationsMap, replace property values
                parameterMap = remapTable[tag]
                try:
                    # Map original property values to values in dictionary
                    remappedValue = parameterMap[textIn]
                except KeyError:
                    # If value doesn't match any key: use original value
                    # instead
                    remappedValue = textIn
            except KeyError:
                # If tag doesn't match any key in enumerationsMap, use original
                # value
                remappedValue = textIn
''','''            remappedValue = remapTable.get(tag, {}).get(textIn, textIn)
''')]
EDITS['human-helper']=[(EP,'''            if remappedValue is not None:
                # Data type
                textType = type(remappedValue)

                # Convert text field, depending on type
                if textType == bytes:
                    textOut = bc.bytesToText(remappedValue)
                elif textType in numericTypes:
                    textOut = str(remappedValue)
                else:
                    textOut = bc.removeControlCharacters(remappedValue)

                # Update output tree
                elt.text = textOut
''','''            if remappedValue is None:
                continue
            elt.text = toPrintable(remappedValue)
'''),(EP,'''            # First set up list of all numeric data types
            numericTypes = [int, float, bool]
''',''),(EP,'''class Element(ET''','''NUMERIC_TYPES = (int, float, bool)


def toPrintable(value):
    """Return printable text for value."""
    if isinstance(value, bytes):
        return bc.bytesToText(value)
    if isinstance(value, NUMERIC_TYPES):
        return str(value)
    return bc.removeControlCharacters(value)


class Element(ET''')]
EDITS['human-inplace']=[(EP,'''                # Convert text field, depending on type
                if textType == bytes:
                    textOut = bc.bytesToText(remappedValue)
                elif textType in numericTypes:
                    textOut = str(remappedValue)
                else:
                    textOut = bc.removeControlCharacters(remappedValue)

                # Update output tree
                elt.text = textOut
''','''                elt.text = remappedValue
                if textType == bytes:
                    elt.text = bc.bytesToText(elt.text)
                elif textType in numericTypes:
                    elt.text = str(elt.text)
                else:
                    elt.text = bc.removeControlCharacters(elt.text)
''')]
EDITS['human-functions']=[(EP,'''        remapTable = remapTable or {}
        for elt''','''        if remapTable is None:
            remapTable = {}
        for elt''')]
EDITS['findtext-conditional']=[(EP,'''        elt = self.find(match)
        if elt is not None:
            return elt.text
        return None
''','''        elt = self.find(match)
        return None if elt is None else elt.text
'''),(EP,'''        el = ET.SubElement(self, tag)
        el.text = text
''','''        child = ET.Element(tag)
        child.text = text
        self.append(child)
'''),(EP,'''        if len(subelement) != 0:
            self''','''        if len(subelement) > 0:
            self''')]
EDITS['ctrl-chars']=[(BC,'''    allowedChars = [u'\\t', u'\\n', u'\\r']
    return "".join(ch for ch in string if unicodedata.category(ch)[
                   0] != "C" or ch in allowedChars)
''','''    kept = []
    for ch in string:
        if ch in "\\t\\n\\r" or not unicodedata.category(ch).startswith("C"):
            kept.append(ch)
    return "".join(kept)
''')]
EDITS['conv-int-from-bytes']=[(BC,'''        result = int(binascii.hexlify(bytestring), 16)
    except BaseException:
        result = -9999

    return result
''','''        return int(bytestring.hex(), 16)
    except ValueError:
        return MISSING
'''),(BC,'''    try:
        result = struct.unpack(formatStr, bytestr)[0]
    except BaseException:
        result = -9999
    return result
''','''    try:
        (result,) = struct.unpack(formatStr, bytestr)
    except struct.error:
        return MISSING
    return result
'''),(BC,'''def _doConv''','''# Returned if value cannot be determined
MISSING = -9999


def _doConv''')]
EDITS['conv-sized']=[(BC,'''    formatStr = bOrder + formatCharacter
    try:
        result = struct.unpack(formatStr, bytestr)[0]
    except BaseException:
        result = -9999
    return result
''','''    unpacker = struct.Struct(bOrder + formatCharacter)
    if len(bytestr) != unpacker.size:
        return -9999
    return unpacker.unpack(bytestr)[0]
''')]
EDITS['conv-int']=[(BC,'''    return _doConv(bytestring, ">", "Q")''','''    return _toUnsigned(bytestring, 8)'''),(BC,'''    return _doConv(bytestring, ">", "I")''','''    return _toUnsigned(bytestring, 4)'''),(BC,'''    return _doConv(bytestring, ">", "H")''','''    return _toUnsigned(bytestring, 2)'''),(BC,'''    return _doConv(bytestring, ">", "B")''','''    return _toUnsigned(bytestring, 1)'''),(BC,'''def bytesToULongLong''','''def _toUnsigned(bytestring, width):
    """Convert width bytes."""
    if len(bytestring) != width:
        return -9999
    return int.from_bytes(bytestring, "big")


def bytesToULongLong''')]
EDITS['shared-all']=[(SH,'''    for i in range(1, len(lst)):
        if lst[i] - lst[i - 1] != 1:
            return False
    return True
''','''    return all(b - a == 1 for a, b in zip(lst, lst[1:]))
'''),(SH,'''    indices_of_value = [i for i in range(len(lst)) if lst[i] == value]
    return consecutive(indices_of_value)
''','''    return consecutive([i for i, item in enumerate(lst) if item == value])
'''),(SH,'''    msgString = ("User warning: " + msg + "\\n")
    sys.stderr.write(msgString)
''','''    _report("User warning", msg)
'''),(SH,'''    msgString = ("Error: " + msg + "\\n")
    sys.stderr.write(msgString)
    sys.exit()
''','''    _report("Error", msg)
    sys.exit()
'''),(SH,'''def printWarning''','''def _report(kind, msg):
    """Write to stderr."""
    sys.stderr.write("{}: {}\\n".format(kind, msg))


def printWarning''')]
EDITS['shared-print']=[(SH,'''    msgString = ("User warning: " + msg + "\\n")
    sys.stderr.write(msgString)
''','''    print("User warning: " + msg, file=sys.stderr)
'''),(SH,'''    msgString = ("Error: " + msg + "\\n")
    sys.stderr.write(msgString)
    sys.exit()
''','''    print("Error: " + msg, file=sys.stderr)
    sys.exit()
''')]
