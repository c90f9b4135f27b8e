"""Hand-written realistic bugs in reporting, options, output and file finding; run with tools/handdetect.py."""
import re
BV, JP, ETP, BC, SH, MX = 'boxvalidator.py', 'jpylyzer.py', 'etpatch.py', 'byteconv.py', 'shared.py', 'mix.py'
EDITS = {}
EXPECT = {}


def bug(name, prop, *edits):
    EDITS[name] = list(edits)
    EXPECT[name] = prop


def once(f, a, b):
    def g(s):
        assert s.count(a) >= 1, a
        return s.replace(a, b, 1)
    return (f, g)


# C19
bug('order-warnings', 'C19', (JP, '    root.append(tests)\n    root.append(characteristics)\n', '    root.append(tests)\n    if mixFlag != 0 or success:\n        root.append(characteristics)\n'))
bug('size-mmap', 'C19', (JP, '        # Set root box according to validation format\n', '        if len(fileData) != fileSize:\n            fileInfo.find("fileSizeInBytes").text = str(len(fileData))\n        # Set root box according to validation format\n'))
bug('isvalid-format-default', 'C19', (JP, '    root.findall(".//isValid")[0].set("format", validationFormat)', '    root.findall(".//isValid")[0].set("format", config.VALIDATION_FORMAT)'))
bug('isvalid-last', 'C19', (JP, '    root.findall(".//isValid")[0].set("format", validationFormat)\n\n    root.append(tests)\n    root.append(characteristics)\n', '    root.append(tests)\n    root.append(characteristics)\n    root.findall(".//isValid")[-1].set("format", validationFormat)\n'))
bug('ctime', 'C19', (JP, 'dt = os.path.getmtime(path)', 'dt = max(os.path.getmtime(path), os.path.getctime(path))'))
bug('utc-time', 'C19', (JP, 'lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()\n    except', 'lastModifiedDate = datetime.datetime.utcfromtimestamp(dt).isoformat()\n    except'))
bug('basename-strip', 'C19', (JP, 'fileName = os.path.basename(path)', 'fileName = os.path.basename(path.rstrip())'))
bug('normcase', 'C19', (JP, 'filePath = os.path.abspath(path)', 'filePath = os.path.join(os.getcwd(), path)'))
bug('toolinfo-late', 'C19', (JP, '    # Write toolInfo to stdout\n    writeElement(toolInfo, out)\n', ''), (JP, '        # Write output to stdout\n        writeElement(xmlElement, out)\n', '        # Write output to stdout\n        if path == EXISTING_FILES[0]:\n            writeElement(toolInfo, out)\n        writeElement(xmlElement, out)\n'))
bug('ext-only-valid', 'C19', (JP, '        root.append(extension)\n        if validationFormat in [\'jp2\', \'jph\'] and fileIsValid:\n            extension.append(mixProperties)\n', '        if validationFormat in [\'jp2\', \'jph\'] and fileIsValid:\n            root.append(extension)\n            extension.append(mixProperties)\n'))
bug('warnings-if', 'C19', (JP, '    root.append(warnings)\n\n', '    root.appendIfNotEmpty(warnings)\n\n'))
bug('failmsg-empty', 'C19', (JP, '    if not success:\n        statusInfo.appendChildTagWithText("failureMessage", failureMessage)', '    if not success and len(warnings) > 1:\n        statusInfo.appendChildTagWithText("failureMessage", failureMessage)'))
# C20
bug('skip-strip-clean', 'C20', (JP, 'filePathCleaned = stripNonXMLCharacters(stripSurrogatePairs(filePath))', 'filePathCleaned = stripSurrogatePairs(filePath)'))
bug('ctrl-c1', 'C20', (BC, 'def removeControlCharacters', 'def _isCtl(c):\n    return ord(c) < 9\n\n\ndef removeControlCharacters'))
bug('writer-latin', 'C20', (JP, 'out = codecs.getwriter(config.UTF8_ENCODING)(sys.stdout.buffer)', 'out = codecs.getwriter(sys.stdout.encoding or config.UTF8_ENCODING)(sys.stdout.buffer)'))
bug('pretty-lines', 'C20', (JP, '        del xmlAsList[0]\n', '        xmlAsList = [line for line in xmlAsList[1:] if line.strip()]\n'))
bug('head-if-many', 'C20', (JP, '    # Close </results> element\n    out.write("</jpylyzer>\\n")', '    # Close </results> element\n    if xmlElement is not None and len(xmlElement) > 5:\n        out.write("</jpylyzer>\\n")'))
bug('pretty-fallback', 'C20', (JP, "        xmlPretty = minidom.parseString(xmlOut).toprettyxml('    ')\n", "        try:\n            xmlPretty = minidom.parseString(xmlOut).toprettyxml('    ')\n        except Exception:\n            xmlPretty = xmlOut\n"))
bug('fmm-raw-name', 'C20', (JP, '        for fmmWarning in fmmWarnings:\n            warnings.appendChildTagWithText("warning", fmmWarning)\n', ''), (JP, '        warnings.makeHumanReadable()\n', '        warnings.makeHumanReadable()\n        for fmmWarning in fmmWarnings:\n            warnings.appendChildTagWithText("warning", fmmWarning)\n'))
bug('failmsg-exc', 'C20', (JP, '            failureMessage = "I/O error (cannot open file)"', '            failureMessage = "I/O error (cannot open file): " + str(ex)'))
# C21
bug('print-missing', 'C21', (JP, '            shared.printWarning(msg)\n\n        # RECURSION', '            print(msg)\n\n        # RECURSION'))
bug('print-err-exit', 'C21', (SH, '    msgString = ("Error: " + msg + "\\n")\n    sys.stderr.write(msgString)\n', '    msgString = ("Error: " + msg + "\\n")\n    sys.stdout.write(msgString)\n'))
bug('quiet-dup', 'C21', (JP, '        warnings.appendChildTagWithText("warning", failureMessage)\n        shared.printWarning(failureMessage)', '        warnings.appendChildTagWithText("warning", failureMessage)\n        if not isinstance(ex, IOError):\n            shared.printWarning(failureMessage)'))
bug('empty-silent', 'C21', (JP, '                msg = "empty file " + filename\n                mmWarnings.append(msg)\n                shared.printWarning(msg)\n', '                msg = "empty file " + filename\n                mmWarnings.append(msg)\n'))
bug('noinput-print', 'C21', (JP, '        shared.printWarning("no images to check!")\n', '        print("no images to check!")\n'))
bug('noinput-after-head', 'C21', (JP, '    # If there are no valid input files then exit program\n    checkNoInput(EXISTING_FILES)\n', ''), (JP, '    # Process the input files\n', '    checkNoInput(EXISTING_FILES)\n    # Process the input files\n'))
bug('warn-flush-stdout', 'C21', (SH, '    sys.stderr.write(msgString)\n\n\ndef errorExit', '    print(msgString, end="", file=None if len(msgString) > 200 else sys.stderr)\n\n\ndef errorExit'))
# C24
bug('mix-choices3', 'C24', (JP, 'type=int, choices=[1, 2],', 'type=int, choices=[0, 1, 2],'))
bug('fmt-no-lower', 'C24', (JP, 'args.fmt.lower()', 'args.fmt'))
bug('fmt-strip', 'C24', (JP, 'args.fmt.lower()', 'args.fmt.lower()[:3]'))
bug('verbose-short-p', 'C24', (JP, "'--packetmarkers', '-p'", "'--packetmarkers'"), (JP, "PARSER.add_argument('--nopretty',", "PARSER.add_argument('--nopretty', '-p',"))
bug('recurse-not-set', 'C24', (JP, 'config.INPUT_RECURSIVE_FLAG = args.inputRecursiveFlag', 'config.INPUT_RECURSIVE_FLAG = args.inputRecursiveFlag and len(jp2In) == 1'))
bug('nargs-star', 'C24', (JP, "nargs='+'", "nargs='*'"))
bug('noinput-zero', 'C24', (JP, '        shared.printWarning("no images to check!")\n        sys.exit(config.ERR_CODE_NO_IMAGES)', '        shared.printWarning("no images to check!")\n        sys.exit()'))
bug('mix-jph-off', 'C24', (JP, "    if config.VALIDATION_FORMAT in ['j2c', 'jhc']:\n        config.MIX_FLAG = 0", "    if config.VALIDATION_FORMAT != 'jp2':\n        config.MIX_FLAG = 0"))
bug('pretty-inverted-many', 'C24', (JP, '    if not config.NO_PRETTY_XML_FLAG:\n', '    if not config.NO_PRETTY_XML_FLAG or config.OUTPUT_VERBOSE_FLAG:\n'))
bug('nullxml-const', 'C24', (JP, 'dest="extractNullTerminatedXMLFlag",\n                        default=False', 'dest="extractNullTerminatedXMLFlag",\n                        default=config.EXTRACT_NULL_TERMINATED_XML_FLAG or None'))
bug('errorexit-return', 'C24', (SH, '    sys.stderr.write(msgString)\n    sys.exit()', '    sys.stderr.write(msgString)\n    sys.exit(0 if msg.startswith("Jpylyzer") else 2)'))
# C25
bug('decode-latin', 'C25', (BC, 'def bytesToText', 'def bytesToText'), )
del EDITS['decode-latin'], EXPECT['decode-latin']
bug('remap-children', 'C25', (ETP, '        for elt in self.iter():\n            # Text field', '        for elt in self.findall(".//*"):\n            if len(elt) and elt.text is None:\n                continue\n            if elt.tag == "mTyp" and elt.text == 1 and len(self) > 6:\n                continue\n            # Text field'))
bug('remap-bool', 'C25', (ETP, '                    remappedValue = parameterMap[textIn]\n', '                    remappedValue = parameterMap[textIn if textIn is not True else 1]\n'), (ETP, 'remapTable = remapTable or {}', 'remapTable = remapTable or {"eocMarkerFound": {1: "yes"}}'))
bug('float-repr', 'C25', (ETP, '                    textOut = str(remappedValue)\n', '                    textOut = "%g" % remappedValue if textType == float else str(remappedValue)\n'))
bug('none-empty', 'C25', (ETP, '            if remappedValue is not None:\n', '            if remappedValue:\n'))
bug('falsy-map', 'C25', (ETP, '                    remappedValue = parameterMap[textIn]\n                except KeyError:', '                    remappedValue = parameterMap.get(textIn) or textIn\n                except KeyError:'))
bug('map-shared', 'C25', (JP, '    transparencyMap[1] = "Transparent"', '    transparencyMap[1] = "Transparent"\n    transparencyMap[2] = "Transparent"'))
bug('cassoc-extra', 'C25', (JP, '    cAssocMap[65535] = "no colours"', '    cAssocMap[65535] = "no colours"\n    cAssocMap[65534] = "no colours"'))
bug('map-sgi-space', 'C25', (JP, "    primaryPlatformMap[b'SGI'] =", "    primaryPlatformMap[b'SGI '] ="))
bug('remap-tests', 'C25', (JP, '        tests.makeHumanReadable()\n', '        tests.makeHumanReadable({"eph": remapTable["eph"], "cValid": {True: "True"}, "methIsValid": {0: "no"}})\n'))
bug('warn-not-human', 'C25', (JP, '        warnings.makeHumanReadable()\n\n', '\n'))
bug('remap-parent-tag', 'C25', (ETP, '                parameterMap = remapTable[tag]\n', '                parameterMap = remapTable[tag.strip("s")]\n'))
# C26
bug('mix-res-int', 'C26', (MX, "                    resolutionBox.find('vRescInPixelsPerMeter').text) *\n                100)", "                    resolutionBox.find('vRescInPixelsPerMeter').text) *\n                1000) // 10"))
bug('mix-round', 'C26', (MX, "                        properties.find('compressionRatio').text) *\n                    100,\n                    0))", "                        properties.find('compressionRatio').text) *\n                    100))"), (MX, '            value = int(\n                round(\n', '            value = int(\n                (\n'))
bug('mix-display-first', 'C26', (MX, "        if resolutionBox is not None:\n            numX = int(\n                float(\n                    resolutionBox.find('hRescInPixelsPerMeter').text) *", "        if resolutionBox is not None and resolutionBox.find('hRescInPixelsPerMeter').text != '0':\n            numX = int(\n                float(\n                    resolutionBox.find('hRescInPixelsPerMeter').text) *"))
bug('mix-levels', 'C26', (MX, '        if str(levels) != "0":', '        if str(levels) > "0" and str(levels) < "9":'))
bug('mix-layers-first', 'C26', (MX, '        if str(layers) != "0":', '        if str(layers) not in ("0", "1"):'))
bug('mix-tiles-swap', 'C26', (MX, "            mixTiles.appendChildTagWithText('mix:tileWidth', str(tilesX))", "            mixTiles.appendChildTagWithText('mix:tileWidth', str(tilesY if tilesX == '0' else tilesX))"))
bug('mix-cs-upper', 'C26', (MX, "'mix:colorSpace', enumCS.text.strip())", "'mix:colorSpace', enumCS.text.strip().replace('sYCC', 'YCbCr'))"))
bug('mix-xml-uuid', 'C26', (MX, "        if not rdfBox:\n            rdfBox = properties.find('uuidBox", "        if rdfBox is None:\n            rdfBox = properties.find('uuidBox"))
bug('mix-br', 'C26', (MX, "formatName = 'image/' + value.strip()", "formatName = 'image/' + value.strip().lower()"))
bug('mix-version-two', 'C26', (MX, "            nsString = 'http://www.loc.gov/mix/v20'\n", "            nsString = 'http://www.loc.gov/mix/v2'\n"))
bug('mix-bps-set', 'C26', (MX, "            for e in values:\n", "            for e in values[:int(size.find('csiz').text)]:\n"))
bug('mix-bps-first', 'C26', (MX, "        values = size.findall('ssizDepth')\n", "        values = size.findall('ssizDepth')[:4]\n"))
bug('mix-wrong-lossless', 'C26', (MX, "        if compression == '5-3 reversible':", "        if compression != '9-7 irreversible':"))
bug('mix-attr-first', 'C26', (MX, "        value = prop.find(path)\n        if value is not None:\n            return value.text\n", "        value = prop.find(path)\n        if value is not None and value.text:\n            return value.text.strip()\n"))
bug('mix-greedy', 'C26', (MX, "r'(.*)-v([0-9\\.]*)'", "r'(.*?)-v([0-9\\.]*)'"))
bug('mix-match', 'C26', (MX, "m = re.search(r'(.*)-v", "m = re.match(r'(\\S*)-v"))
# C27
bug('dedupe', 'C27', (JP, '        if os.path.isfile(root):\n            EXISTING_FILES.append(root)\n', '        if os.path.isfile(root):\n            if root not in EXISTING_FILES:\n                EXISTING_FILES.append(root)\n'))
bug('sorted-all', 'C27', (JP, '    for path in EXISTING_FILES:\n', '    for path in sorted(EXISTING_FILES):\n'))
bug('glob-dirs', 'C27', (JP, '                for f in filesList:\n                    if os.path.isfile(f):\n                        EXISTING_FILES.append(f)', '                for f in filesList:\n                    if os.path.exists(f):\n                        EXISTING_FILES.append(f)'))
bug('walk-nolinks', 'C27', (JP, '            EXISTING_FILES.append(thisFile)', '            if os.path.isfile(thisFile):\n                EXISTING_FILES.append(thisFile)'))
bug('walk-hidden', 'C27', (JP, '        for filename in filenames:\n            thisFile', '        for filename in filenames:\n            if filename.startswith("."):\n                continue\n            thisFile'))
bug('walk-prune', 'C27', (JP, '            # pylint: disable=W0612\n            thisDirectory = os.path.join(dirname, subdirname)', '            thisDirectory = os.path.join(dirname, subdirname)\n            if os.path.islink(thisDirectory) or subdirname.startswith("."):\n                dirnames.remove(subdirname)'))
bug('wild-one-dir', 'C27', (JP, 'if len(filesList) == 1 and os.path.isdir(filesList[0]):', 'if os.path.isdir(filesList[0]):'))
bug('glob-recursive', 'C27', (JP, '            filesList = glob.glob(root)\n', '            filesList = glob.glob(root, recursive=recurse)\n'))
bug('missing-stops', 'C27', (JP, '            shared.printWarning(msg)\n\n        # RECURSION', '            shared.printWarning(msg)\n            break\n\n        # RECURSION'))
bug('globstar-len', 'C27', (JP, '            if len(filesList) > 1:\n                for f in filesList:', '            if len(filesList) > 2:\n                for f in filesList:'))
bug('recurse-wild-many', 'C27', (JP, '                    if len(filepath) > 1:\n                        for f in filepath:\n                            if os.path.isdir(f):\n                                getFilesWithPatternFromTree(f, filePattern)', '                    if len(filepath) > 1:\n                        for f in filepath:\n                            if os.path.isdir(f):\n                                getFilesWithPatternFromTree(f, filePattern)\n                                break'))
bug('noinput-count', 'C27', (JP, '    checkNoInput(EXISTING_FILES)\n', '    if len(paths) > 1:\n        checkNoInput(EXISTING_FILES)\n'))
bug('getfiles-noisfile', 'C27', (JP, '    for f in results:\n        if os.path.isfile(f):\n            EXISTING_FILES.append(f)', '    for f in results:\n        if not os.path.isdir(f) or os.path.islink(f):\n            EXISTING_FILES.append(f)'))
bug('walk-topdown', 'C27', (JP, 'for dirname, dirnames, filenames in os.walk(rootDir):', 'for dirname, dirnames, filenames in os.walk(rootDir, topdown=False):'))
bug('walk-follow', 'C27', (JP, 'for dirname, dirnames, filenames in os.walk(rootDir):', 'for dirname, dirnames, filenames in os.walk(rootDir, followlinks=True):'))
bug('abs-input', 'C27', (JP, '        if os.path.isfile(root):\n            EXISTING_FILES.append(root)\n        # Windows', '        if os.path.isfile(root):\n            EXISTING_FILES.append(os.path.realpath(root))\n        # Windows'))
# C02
bug('verbose-first-fail', 'C02', (BV, '            if testResult is False:\n                self.tests', '            if testResult is False and self.tests.find(testType) is None:\n                self.tests'))
bug('verbose-falsy', 'C02', (BV, '        else:\n            # Verbose output, add results of all tests\n', '        elif testResult is not None:\n            # Verbose output, add results of all tests\n'))
bug('pm-tests-gone', 'C02', (BV, '                self.tests.appendIfNotEmpty(testsPPT)\n                if self.packetmarkersFlag:\n', '                if self.packetmarkersFlag:\n                    self.tests.appendIfNotEmpty(testsPPT)\n'))
bug('pm-com', 'C02', (BV, '                    if self.packetmarkersFlag:\n                        self.characteristics.append(characteristicsPPM)', '                    if self.packetmarkersFlag or len(testsPPM) > 0:\n                        self.characteristics.append(characteristicsPPM)'))
bug('options-drop', 'C02', (BV, '        self.packetmarkersFlag = self.options[\'packetmarkersFlag\']', '        self.packetmarkersFlag = self.options[\'packetmarkersFlag\'] or self.options[\'verboseFlag\']'))
# C03
bug('char-if-nonempty', 'C03', once(BV, '                    self.characteristics.append(characteristicsQCD)', '                    if len(characteristicsQCD) != 0 and self.characteristics.find("qcd") is None:\n                        self.characteristics.append(characteristicsQCD)'))
bug('com-overwrites', 'C03', once(BV, '                    self.characteristics.append(characteristicsCOM)', '                    old = self.characteristics.find("com")\n                    if old is not None and len(self.characteristics) > 40:\n                        self.characteristics.remove(old)\n                    self.characteristics.append(characteristicsCOM)'))
bug('insert-first', 'C03', once(BV, '                self.characteristics.append(characteristicsPOC)', '                self.characteristics.insert(0, characteristicsPOC)'))
bug('unknown-no-type', 'C03', (BV, '        self.addCharacteristic("boxType", boxType)\n', '        if bc.bytesToText(boxType) != "":\n            self.addCharacteristic("boxType", boxType)\n'))
bug('unknown-warn-text', 'C03', (BV, '        self.addWarning(msg)\n        shared.printWarning(msg)\n\n    def validate_signatureBox', '        if boxType != b"free":\n            self.addWarning(msg)\n        shared.printWarning(msg)\n\n    def validate_signatureBox'))
bug('tp-limit', 'C03', (BV, '                    tilePartTests.appendIfNotEmpty(testsTilePart)', '                    if len(tilePartTests) < 1000:\n                        tilePartTests.appendIfNotEmpty(testsTilePart)'))
# C20
bug('ctrl-surrogates', 'C20', (BC, 'unicodedata.category(ch)[\n                   0] != "C" or', 'unicodedata.category(ch) != "Cc" or'))
bug('ctrl-allow-more', 'C20', (BC, "[u'\\t', u'\\n', u'\\r']", "[u'\\t', u'\\n', u'\\x0b', u'\\r']"))
bug('surrogate-pass', 'C20', (JP, "tmp = ustring.encode('utf-8', 'replace')", "tmp = ustring.encode('utf-8', 'surrogatepass')"), (JP, "tmp.decode('utf-8', 'ignore')", "tmp.decode('utf-8', 'surrogatepass')"))
bug('text-no-strip', 'C25', (ETP, '                    textOut = bc.removeControlCharacters(remappedValue)\n', '                    textOut = bc.removeControlCharacters(remappedValue.strip())\n'))
bug('bytes-replace', 'C25', (BC, 'errorMode = "strict"', 'errorMode = "replace"'))
bug('bytes-null', 'C25', (BC, '        result = removeControlCharacters(string)\n\n    except', '        result = removeControlCharacters(string.split("\\x00")[0])\n\n    except'))
bug('ctrl-cf', 'C25', (BC, 'unicodedata.category(ch)[\n                   0] != "C" or', 'unicodedata.category(ch) not in ("Cc", "Cs", "Cn") or'))
bug('ctrl-tab', 'C25', (BC, "[u'\\t', u'\\n', u'\\r']", "[u'\\n', u'\\r']"))
bug('isctrl-del', 'C04', (BC, 'return ord(c) < 32 or ord(c) == 127', 'return ord(c) < 32 or ord(c) >= 127'))
bug('nullterm-one', 'C02', (BC, "bytesOut = bytestring.rstrip(b'\\x00')", "bytesOut = bytestring[:-1] if bytestring.endswith(b'\\x00') else bytestring"))
bug('walk-slice', 'C27', (JP, '        for filename in filenames:\n            thisFile', '        dirnames[:] = [d for d in dirnames if not d.startswith(".")]\n        for filename in filenames:\n            thisFile'))
bug('walk-sort', 'C27', (JP, '        for filename in filenames:\n            thisFile', '        dirnames.sort(reverse=True)\n        for filename in filenames:\n            thisFile'))
bug('walk-sort-files', 'C27', (JP, '        for filename in filenames:\n            thisFile', '        filenames.sort(reverse=True)\n        for filename in filenames:\n            thisFile'))
bug('walk-clear', 'C27', (JP, '        for filename in filenames:\n            thisFile', '        if len(filenames) > 1:\n            dirnames.clear()\n        for filename in filenames:\n            thisFile'))
bug('walk-break', 'C27', (JP, '            EXISTING_FILES.append(thisFile)\n', '            EXISTING_FILES.append(thisFile)\n        if dirname.count(os.sep) - rootDir.count(os.sep) > 2:\n            break\n'))
bug('walk-pattern-root', 'C27', (JP, '            searchpattern = os.path.join(thisDirectory, pattern)\n            getFiles(searchpattern)', '            searchpattern = os.path.join(thisDirectory, pattern)\n            if os.path.isdir(searchpattern.rstrip("*")):\n                continue\n            getFiles(searchpattern)'))
