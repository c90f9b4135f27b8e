"""Hand-written realistic bugs (each breaks the property EXPECT names); run with tools/handdetect.py."""
import re
BV, JP, ETP, BC, SH, MX = 'boxvalidator.py', 'jpylyzer.py', 'etpatch.py', 'byteconv.py', 'shared.py', 'mix.py'
EDITS = {}
EXPECT = {}


def bug(name, prop, *edits):
    EDITS[name] = list(edits)
    EXPECT[name] = prop


def imp(f, line, anchor):
    return (f, lambda s: s.replace(anchor, line + '\n' + anchor, 1))


def sub(f, pat, rep, n=0, flags=re.S):
    def g(s):
        t, k = re.subn(pat, rep, s, count=n, flags=flags)
        assert k, pat
        return t
    return (f, g)


def once(f, a, b):
    def g(s):
        assert s.count(a) >= 1, a
        return s.replace(a, b, 1)
    return (f, g)


# C23
bug('cache-checkone', 'C23', imp(JP, 'import functools', 'import os'),
    (JP, 'def checkOneFile(path,', '@functools.lru_cache(maxsize=None)\ndef checkOneFile(path,'))
bug('class-tests', 'C23', (BV, '        elif bType == "JP2":\n            self.characteristics = ET.Element("properties")\n            self.tests = ET.Element("tests")',
    '        elif bType == "JP2":\n            self.characteristics = ET.Element("properties")\n            self.tests = self.rootTests'),
    (BV, '    # Reverse access of typemap', '    rootTests = ET.Element("tests")\n\n    # Reverse access of typemap'))
bug('remap-default-mutable', 'C23', (ETP, 'def makeHumanReadable(self, remapTable=None):', 'def makeHumanReadable(self, remapTable={}):'),
    (ETP, '        remapTable = remapTable or {}\n', ''),
    (ETP, '                except KeyError:\n                    # If value doesn\'t match any key: use original value\n                    # instead\n                    remappedValue = textIn',
     '                except KeyError:\n                    # If value doesn\'t match any key: use original value\n                    # instead\n                    remappedValue = parameterMap[textIn] = textIn'),
    (JP, '        remapTable = generatePropertiesRemapTable()\n', '        remapTable = REMAP\n'),
    (JP, 'def fileToBytes(', 'REMAP = generatePropertiesRemapTable()\n\n\ndef fileToBytes('))
bug('warn-once-global', 'C23', (SH, 'def printWarning(msg):\n    """Print warning to stderr."""\n',
    'SEEN = set()\n\n\ndef printWarning(msg):\n    """Print warning to stderr."""\n    if msg in SEEN:\n        return\n    SEEN.add(msg)\n'))
bug('config-sticky-null', 'C23', (BV, "        self.nullxmlFlag = self.options['nullxmlFlag']", "        self.nullxmlFlag = self.options['nullxmlFlag'] or config.EXTRACT_NULL_TERMINATED_XML_FLAG"),
    (BV, 'from . import shared', 'from . import shared\nfrom . import config'))
bug('unknown-typemap', 'C23', (BV, "            self.boxType = 'unknownBox'\n", "            self.boxType = 'unknownBox'\n            self.typeMap[bType] = 'unknownBox'\n"))
# C01
bug('valid-findall-falsy', 'C01', (BV, '            if elt.text is False:', '            if elt.text is False and len(elt) == 0 and elt.tag.endswith("Valid"):'))
bug('valid-early', 'C01',
    sub(BV, r'            # bPCDepthValues must be equal to ssizDepthValues\n', '            self.isValid = self._isValid()\n\n            # bPCDepthValues must be equal to ssizDepthValues\n'),
    sub(BV, r'        # Valid JP2 only if all tests returned True\n        self.isValid = self._isValid\(\)', '        if self.isValid is None:\n            self.isValid = self._isValid()'))
bug('valid-iter-break', 'C01', (BV, '''        for elt in self.tests.iter():
            if elt.text is False:
                # File didn't pass this test, so not valid
                return False
        return True''', '''        for box in self.tests:
            for elt in box:
                if elt.text is False:
                    return False
            if box.text is False:
                return False
        return True'''))
bug('valid-success', 'C01', (JP, '    root.appendChildTagWithText("isValid", str(fileIsValid))', '    root.appendChildTagWithText("isValid", str(fileIsValid and not len(warnings)))'))
bug('psot-none', 'C01', (BV, '        psotIsValid = not 1 <= psot <= 13', '        psotIsValid = psot if psot in (0,) else not 1 <= psot <= 13'))
# C16
bug('seg-no-plus2', 'C16', (BV, '            offsetNext = offset + length + 2\n', '            offsetNext = offset + max(length, 2) if length else offset + length\n'))
bug('getbox-zero', 'C16', (BV, '            boxLengthValue = noBytes - byteStart\n', '            boxLengthValue = 0 if noBytes - byteStart < 8 else noBytes - byteStart\n'),
    (BV, 'boxLengthValue not in [0, -9999]', 'boxLengthValue != -9999'))
bug('main-loop-end', 'C16', (BV, "            while marker != b'\\xff\\x90' and offsetNext != -9999:", "            while marker != b'\\xff\\x90' and offset < length:"))
bug('ulst-break', 'C16', (BV, '''        for _ in range(nU):
            if offset + 16 > len(self.boxContents):
                # No complete UUID left
                break
''', '''        while nU > 0:
            if offset + 16 > len(self.boxContents):
                # No complete UUID left
                continue
            nU -= 1
'''))
bug('ipl-len', 'C16', (BV, '            i += ipl_i_len\n', '            i += ipl_i_len if iplt_i else 0\n'))
# C22
bug('mmap-not-closed', 'C22', (JP, '        if not NO_MMAP_LIB and fileData != "":\n            fileData.close()\n', '        if not NO_MMAP_LIB and not fmmWarnings and resultsJP2.isValid:\n            fileData.close()\n'))
bug('open-plain', 'C22', (JP, '''    with open(filename, "rb") as f:
        fileData = f.read()

    return fileData
''', '''    f = open(filename, "rb")
    fileData = f.read()
    if fileData:
        f.close()

    return fileData
'''))
bug('utime', 'C22', (JP, '        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()\n    except', '        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()\n        os.utime(path, (dt, dt))\n    except'))
bug('debug-dump', 'C22', (JP, '            failureMessage = "unknown error, please', '            with open("jpylyzer.log", "a") as log:\n                log.write(str(ex))\n            failureMessage = "unknown error, please'))
bug('map-private-write', 'C22', (JP, 'f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)', 'f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ | mmap.PROT_WRITE)'))
# C17
bug('narrow-except', 'C17', (JP, '    except Exception as ex:\n', '    except (MemoryError, IOError, RuntimeError, ValueError, TypeError, KeyError, IndexError) as ex:\n'))
bug('failure-oserror-order', 'C17', (JP, '        elif isinstance(ex, RuntimeError):', '        elif isinstance(ex, (RuntimeError, ValueError)):'))
bug('failure-keeps-warnings', 'C17', (JP, '        warnings = ET.Element("warnings")\n        warnings.appendChildTagWithText("warning", failureMessage)', '        if "warnings" not in locals():\n            warnings = ET.Element("warnings")\n        warnings.appendChildTagWithText("warning", failureMessage)'))
bug('size-outside', 'C17', (JP, '''    try:
        fileSize = os.path.getsize(path)
    except OSError:
        # Cannot be accessed (e.g. dangling link): reported below as I/O error
        fileSize = 0
''', '''    try:
        fileSize = os.path.getsize(path)
    except FileNotFoundError:
        # Cannot be accessed (e.g. dangling link): reported below as I/O error
        fileSize = 0
'''))
bug('run-stops', 'C17', (JP, '        # Write output to stdout\n        writeElement(xmlElement, out)\n', '        # Write output to stdout\n        writeElement(xmlElement, out)\n        if xmlElement.find("statusInfo/failureMessage") is not None and "memory" in xmlElement.find("statusInfo/failureMessage").text:\n            break\n'))
bug('raise-memory', 'C17', (JP, '            failureMessage = "memory error (file size too large)"\n', '            failureMessage = "memory error (file size too large)"\n            raise\n'))
# C18
bug('first-box-index', 'C18', (BV, '''        try:
            secondBoxIsFileTypeBox = boxTypes[1] == tagFileTypeBox
        except Exception:
            secondBoxIsFileTypeBox = False
''', '''        secondBoxIsFileTypeBox = bool(boxTypes) and boxTypes[1] == tagFileTypeBox
'''))
bug('ratio-zero', 'C18', (BV, '''        if noBytes != 0:
            compressionRatio = sizeUncompressed / noBytes
        else:
            # Obviously something going wrong here ...
            compressionRatio = -9999

        return compressionRatio''', '''        compressionRatio = sizeUncompressed / noBytes
        return 1 / (1 / compressionRatio)'''))
bug('desc-valueerror', 'C18', (BV, '        except Exception:\n            description = ""', '        except IndexError:\n            description = ""'))
bug('comment-decode', 'C18', (BV, 'comment.decode("iso-8859-15", "strict")', 'comment.decode("ascii", "strict").encode("ascii").decode("utf-16")'), (BV, '            except UnicodeError:\n', '            except UnicodeEncodeError:\n'))
bug('url-decode', 'C18', (BV, '        except UnicodeDecodeError:\n            self.testFor("locIsUTF8", False)', '        except UnicodeEncodeError:\n            self.testFor("locIsUTF8", False)'))
bug('hexdigits-assert', 'C18', (BV, '        return (n >> shift) & 1', '        assert 0 <= n < 2 ** wordLength\n        return (n >> shift) & 1'))
bug('bpcc-none', 'C18', (BV, '''                try:
                    bPCSignValues = bpcBox.findAllText('bPCSign')
                except AttributeError:
                    bPCSignValues = []
''', '''                bPCSignValues = bpcBox.findAllText('bPCSign')
'''))
bug('doconv-except', 'C18', (BC, '''    try:
        result = struct.unpack(formatStr, bytestr)[0]
    except BaseException:
        result = -9999
    return result''', '''    if not bytestr:
        return -9999
    return struct.unpack(formatStr, bytestr)[0]'''))
bug('isctrl-text', 'C18', (BV, '        msg = "ignoring unknown box \'" + bc.bytesToText(boxType) + "\'"', '        msg = "ignoring unknown box \'" + boxType.decode("latin-1" if boxType[0] < 128 else "ascii") + "\'"'))
bug('config-read-fmt', 'C23', (JP, 'root.findall(".//isValid")[0].set("format", validationFormat)', 'root.findall(".//isValid")[0].set("format", validationFormat if config.VALIDATION_FORMAT == "jp2" else config.VALIDATION_FORMAT)'))
bug('unbound-tile', 'C18', (BV, '                        startOffset=offset,\n                        components=csiz).validate()', '                        startOffset=offset,\n                        components=yOsiz).validate()'))
