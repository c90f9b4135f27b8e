"""Hand-written changes to boxvalidator.py and mix.py that keep the behaviour."""
import ast
import re
BV = 'boxvalidator.py'
MX = 'mix.py'
EDITS = {}


def method(name, src):
    """Replace a whole method."""
    def f(s):
        for c in ast.parse(s).body:
            if isinstance(c, ast.ClassDef) and c.name == 'BoxValidator':
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.name == name:
                        lines = s.splitlines(True)
                        return ''.join(lines[:m.lineno - 1]) + src + ''.join(lines[m.end_lineno:])
        raise SystemExit('no method ' + name)
    return (BV, f)


def before(name, src):
    """Insert a method before another."""
    return (BV, lambda s: s.replace('    def %s(' % name, src + '\n    def %s(' % name, 1))


MERGE = '''    def _merge(self, results, showCharacteristics=True):
        """Add results of child validator to our trees."""
        self.tests.appendIfNotEmpty(results.tests)
        if showCharacteristics:
            self.characteristics.append(results.characteristics)
        self.warnings.appendIfNotEmpty(results.warnings)
'''

BLOCK = re.compile(r'''( +)results(\w+) = BoxValidator\(
 +self\.options,
 +(\S+),
 +(\S+?)(,
 +components=\S+)?\)\.validate\(\)
 +tests\2 = results\2\.tests
 +characteristics\2 = results\2\.characteristics
 +warnings\2 = results\2\.warnings
(?: *\n)?( +tilePartLength = .*\n)?(?: *\n)?(?:( +)byteStart = byteEnd\n)?\s*(?:# Add to list of box types\n +(subBoxTypes|boxTypes)\.append\(boxType\)\n)?\s*(?:#[^\n]*\n\s*)*self\.tests\.appendIfNotEmpty\(tests\2\)
( +if self\.packetmarkersFlag:\n)? +self\.characteristics\.append\(characteristics\2\)
 +self\.warnings\.appendIfNotEmpty\(warnings\2\)
''')


def merge_blocks(call):
    def rep(m):
        ind, nm, typ, cont, comp, tp, bs, lst, pm = m.groups()
        comp = comp.split('=')[1].strip() if comp else None
        out = call(ind, nm, typ, cont, comp, bool(pm))
        if tp:
            out += tp
        if nm == 'SIZ':
            out += ind + 'characteristicsSIZ = resultsSIZ.characteristics\n'
        if bs:
            out += ind + 'byteStart = byteEnd\n'
        if lst:
            out += ind + lst + '.append(boxType)\n'
        return out

    def f(s):
        t, n = BLOCK.subn(rep, s)
        assert n > 20, n
        return t
    return (BV, f)


def c_merge(ind, nm, typ, cont, comp, pm):
    return '%sresults%s = BoxValidator(\n%s    self.options, %s, %s%s).validate()\n%sself._merge(results%s%s)\n' % (
        ind, nm, ind, typ, cont, ', components=' + comp if comp else '', ind, nm, ', self.packetmarkersFlag' if pm else '')


EDITS['bv-merge-helper'] = [merge_blocks(c_merge), before('testFor', MERGE)]
EDITS['bv-child-helper'] = [merge_blocks(lambda ind, nm, typ, cont, comp, pm: '%sresults%s = self._validateChild(%s, %s%s%s)\n' % (
    ind, nm, typ, cont, ', components=' + comp if comp else '', ', report=self.packetmarkersFlag' if pm else '')),
    before('testFor', '''    def _validateChild(self, bType, contents, components=None, report=True):
        """Validate child box or marker segment, and add its results to ours."""
        child = type(self)(self.options, bType, contents, components=components)
        child.validate()
        for mine, theirs in ((self.tests, child.tests), (self.warnings, child.warnings)):
            if len(theirs) > 0:
                mine.append(theirs)
        if report:
            self.characteristics.append(child.characteristics)
        return child
''')]
EDITS['bv-boxes-generator'] = [before('_getMarkerSegment', '''    def _boxes(self):
        """Yield type and contents of each box."""
        noBytes = len(self.boxContents)
        byteStart = 0
        while byteStart < noBytes:
            boxLength, boxType, byteEnd, contents = self._getBox(byteStart, noBytes)
            yield boxType, contents
            if boxLength in (0, -9999):
                return
            byteStart = byteEnd
'''), (BV, lambda s: re.sub(r'''        while byteStart < noBytes and boxLengthValue not in \[0, -9999\]:
\s*boxLengthValue, boxType, byteEnd, (\w+) = self._getBox\(
 +byteStart, noBytes\)
''', r'''        for boxType, \1 in self._boxes():
''', s)), (BV, lambda s: re.sub(r'''        # Dummy value
        boxLengthValue = 10
''', '', s)), (BV, lambda s: re.sub(r'''            byteStart = byteEnd
''', '', s).replace('''                return

''', '''                return
            byteStart = byteEnd

''',1)), (BV, lambda s: s.replace('''        byteStart = 0

''', ''))]
EDITS['bv-while-true'] = [(BV, lambda s: re.sub(r'''        # Dummy value
        boxLengthValue = 10

        while byteStart < noBytes and boxLengthValue not in \[0, -9999\]:
''', '''        while byteStart < noBytes:
''', s)), (BV, lambda s: re.sub(r'''(            self\.tests\.appendIfNotEmpty\(testsBox\)
            self\.characteristics\.append\(characteristicsBox\)
            self\.warnings\.appendIfNotEmpty\(warningsBox\)
)''', r'''\1
            if boxLengthValue == 0 or boxLengthValue == -9999:
                # Length unknown, so no way to get to next box
                break
''', s))]
EDITS['bv-init-simplified'] = [(BV, '''        if bType in self.typeMap:
            self.boxType = self.typeMap[bType]
        elif bType == "JP2":
            self.characteristics = ET.Element("properties")
            self.tests = ET.Element("tests")
            self.warnings = ET.Element("warnings")
            self.boxType = "JP2"
        elif bType == "contiguousCodestreamBox":
            self.characteristics = ET.Element("properties")
            self.tests = ET.Element("tests")
            self.warnings = ET.Element("warnings")
            self.boxType = 'contiguousCodestreamBox'
        else:
            self.boxType = 'unknownBox'
            self.characteristics = ET.Element("properties")
            self.warnings = ET.Element("warnings")

        if bType not in ["JP2", "contiguousCodestreamBox"]:
            self.characteristics = ET.Element(self.boxType)
            self.tests = ET.Element(self.boxType)
            self.warnings = ET.Element(self.boxType)
''', '''        if bType in ("JP2", "contiguousCodestreamBox"):
            # Root of the report
            self.boxType = bType
            names = ("properties", "tests", "warnings")
        else:
            self.boxType = self.typeMap.get(bType, 'unknownBox')
            names = (self.boxType,) * 3
        self.characteristics, self.tests, self.warnings = [ET.Element(name) for name in names]
''')]
EDITS['bv-isvalid-any'] = [method('_isValid', '''    def _isValid(self):
        return not any(elt.text is False for elt in self.tests.iter())
''')]
EDITS['bv-isvalid-all'] = [method('_isValid', '''    def _isValid(self):
        return all(elt.text is not False for elt in self.tests.iter())
''')]
EDITS['bv-isvalid-list'] = [method('_isValid', '''    def _isValid(self):
        failed = [elt for elt in self.tests.iter() if elt.text is False]
        return len(failed) == 0
''')]
EDITS['bv-testfor-one-if'] = [method('testFor', '''    def testFor(self, testType, testResult):
        """Add testResult node to tests element tree."""
        if testResult is False or self.verboseFlag:
            self.tests.appendChildTagWithText(testType, testResult)
''')]
EDITS['bv-validate-dispatch'] = [method('validate', '''    def validate(self):
        """Generic box validation function."""
        validator = getattr(self, "validate_" + self.boxType, None)
        if validator is None:
            shared.printWarning("ignoring '%s' (validator function not yet implemented)" % self.boxType)
        else:
            validator()
        return self
''')]
EDITS['bv-getbox-names'] = [method('_getBox', '''    def _getBox(self, byteStart, noBytes):
        """Parse JP2 box and return information on its size, type and contents."""
        header = self.boxContents[byteStart:byteStart + 16]
        size = bc.bytesToUInt(header[:4])
        boxType = header[4:8]
        if len(boxType) < 4:
            # Cut off by end of data
            boxType = boxType + b'\\x00' * (4 - len(boxType))
        headerSize = 8
        if size == 1:
            size = bc.bytesToULongLong(header[8:16])
            headerSize = 16
        if size == 0:
            # Last box in file
            size = noBytes - byteStart
        end = byteStart + size
        return size, boxType, end, self.boxContents[byteStart + headerSize:end]
''')]
EDITS['bv-getmarker'] = [method('_getMarkerSegment', '''    DELIMITERS = frozenset([b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92'])

    def _getMarkerSegment(self, offset):
        """Read marker segment that starts at offset."""
        start = offset + 2
        marker = self.boxContents[offset:start]
        length = 0
        if marker not in self.DELIMITERS:
            length = bc.bytesToUShortInt(self.boxContents[start:start + 2])
        contents = self.boxContents[start:start + length]
        return marker, length, contents, -9999 if length == -9999 else start + length
''')]
EDITS['bv-ratio-sum'] = [method('_calculateCompressionRatio', '''    def _calculateCompressionRatio(
            self, noBytes, bPCDepthValues, height, width):
        """Compute compression ratio."""
        if noBytes == 0:
            return -9999
        return sum(bPCDepthValues) / 8 * height * width / noBytes
''')]
EDITS['bv-bitvalue'] = [method('_getBitValue', '''    def _getBitValue(self, n, p, wordLength=8):
        """Get the bit value of n at binary position p, counted from the left."""
        return n >> (wordLength - p) & 1
''')]
EDITS['bv-bitvalue-static'] = [method('_getBitValue', '''    @staticmethod
    def _getBitValue(n, p, wordLength=8):
        """Get the bit value of n at binary position p, counted from the left."""
        mask = 1 << (wordLength - p)
        return 1 if n & mask else 0
''')]
EDITS['bv-parse-ipl-list'] = [method('_parse_ipl', '''    def _parse_ipl(self, lpl, offset):
        """Parse Iplt/Iplm parameters into a comma separated string of (hex) values."""
        values = []
        total = len(self.boxContents)
        pos = offset
        while pos < min(lpl, total):
            start = pos
            value = 0
            while True:
                byte = bc.bytesToUnsignedChar(self.boxContents[pos:pos + 1])
                value = value * 128 + (byte & 0x7F)
                pos += 1
                if not byte & 0x80 or pos >= total:
                    break
            values.append('%0*X' % (2 * (pos - start), value))
        return ','.join(values)
''')]
EDITS['bv-unknown-fstring'] = [method('validate_unknownBox', '''    def validate_unknownBox(self):
        """Process 'unknown' box."""
        self.addCharacteristic("boxType", self.bTypeString)
        msg = f"ignoring unknown box '{bc.bytesToText(self.bTypeString)}'"
        self.addWarning(msg)
        shared.printWarning(msg)
''')]
EDITS['bv-filetype-table'] = [method('validate_fileTypeBox', '''    BRANDS = {'jp2': b'jp2 ', 'jph': b'jph '}

    def validate_fileTypeBox(self):
        """File type box."""
        remaining = len(self.boxContents) - 8
        self.testFor("boxLengthIsValid", remaining % 4 == 0)
        brand = self.BRANDS.get(self.format)
        br = self.boxContents[:4]
        self.addCharacteristic("br", br)
        if brand is not None:
            self.testFor("brandIsValid", br == brand)
        minV = bc.bytesToUInt(self.boxContents[4:8])
        self.addCharacteristic("minV", minV)
        self.testFor("minorVersionIsValid", minV == 0)
        compatible = False
        for i in range(int(remaining / 4)):
            cL = self.boxContents[8 + 4 * i:12 + 4 * i]
            self.addCharacteristic("cL", cL)
            compatible = compatible or cL == brand
        if brand is not None:
            self.testFor("compatibilityListIsValid", compatible)
''')]
EDITS['bv-header-presence'] = [(BV, '''        if ((self.boxTagMap['paletteBox'] in subBoxTypes and self.boxTagMap['componentMappingBox']
             not in subBoxTypes) or (self.boxTagMap['componentMappingBox'] in subBoxTypes and
                                     self.boxTagMap['paletteBox'] not in subBoxTypes)):
            paletteAndComponentMappingBoxesOnlyTogether = False
        else:
            paletteAndComponentMappingBoxesOnlyTogether = True

        self.testFor("paletteAndComponentMappingBoxesOnlyTogether",
                     paletteAndComponentMappingBoxesOnlyTogether)
''', '''        hasPalette = self.boxTagMap['paletteBox'] in subBoxTypes
        hasMapping = self.boxTagMap['componentMappingBox'] in subBoxTypes
        self.testFor("paletteAndComponentMappingBoxesOnlyTogether", hasPalette == hasMapping)
'''), (BV, lambda s: re.sub(r'''        try:
            firstJP2HeaderBoxIsImageHeaderBox = .*?
        except Exception:
            firstJP2HeaderBoxIsImageHeaderBox = False
''', '''        firstJP2HeaderBoxIsImageHeaderBox = bool(subBoxTypes) and \\\\
            subBoxTypes[0] == self.boxTagMap['imageHeaderBox']
''', s, flags=re.S)), (BV, lambda s: re.sub(r'''        self.testFor\("noMoreThanOneImageHeaderBox".*?'resolutionBox'\]\) <= 1\)
''', '''        for name in ("ImageHeaderBox", "BitsPerComponentBox", "PaletteBox", "ComponentMappingBox",
                     "ChannelDefinitionBox", "ResolutionBox"):
            tag = self.boxTagMap[name[0].lower() + name[1:]]
            self.testFor("noMoreThanOne" + name, subBoxTypes.count(tag) < 2)
''', s, flags=re.S))]
SIGNDEPTH = '''    def _signAndDepth(self, byte):
        """Split bits per component byte into sign and bit depth."""
        return byte >> 7 & 1, (byte & 0x7F) + 1
'''
EDITS['bv-signdepth'] = [before('testFor', SIGNDEPTH), (BV, lambda s: re.sub(
    r'''( +)(\w+)Sign = self\._getBitValue\((\w+), 1\)\n( +self\.addCharacteristic\("\w+Sign", \w+Sign\)\n)(\s*(?:#[^\n]*\n\s*)*)(\w+)Depth = \(\w+ & 127\) \+ 1\n''',
    r'''\1\2Sign, \2Depth = self._signAndDepth(\3)\n\4''', s))]
EDITS['bv-imageheader-helper'] = [before('testFor', '''    def _field(self, name, value, ok):
        """Report value of field, and whether it is valid."""
        self.addCharacteristic(name, value)
        self.testFor(name + "IsValid", ok(value))
        return value
'''), method('validate_imageHeaderBox', '''    def validate_imageHeaderBox(self):
        """Image header box."""
        data = self.boxContents
        self.testFor("boxLengthIsValid", len(data) == 14)
        self._field("height", bc.bytesToUInt(data[0:4]), lambda v: 0 < v < 2 ** 32)
        self._field("width", bc.bytesToUInt(data[4:8]), lambda v: 0 < v < 2 ** 32)
        self._field("nC", bc.bytesToUShortInt(data[8:10]), lambda v: v in range(1, 16385))
        bPC = bc.bytesToUnsignedChar(data[10:11])
        self.addCharacteristic("bPCSign", self._getBitValue(bPC, 1))
        bPCDepth = (bPC & 127) + 1
        self.addCharacteristic("bPCDepth", bPCDepth)
        self.testFor("bPCIsValid", 1 <= bPCDepth <= 38 or bPC == 255)
        self._field("c", bc.bytesToUnsignedChar(data[11:12]), lambda v: v == 7)
        for name, pos in (("unkC", 12), ("iPR", 13)):
            self._field(name, bc.bytesToUnsignedChar(data[pos:pos + 1]), lambda v: v in (0, 1))
''')]
EDITS['bv-colr-icc-helper'] = [before('validate_colourSpecificationBox', '''    def _addICC(self, profile):
        """Extract ICC profile properties and add them to the tree."""
        results = BoxValidator(self.options, 'icc', profile).validate()
        self.characteristics.append(results.characteristics)
        self.warnings.appendIfNotEmpty(results.warnings)
        return results.characteristics
'''), (BV, lambda s: re.sub(r'''            # Extract ICC profile properties as element object
(?: +# self.*\n)? +iccResults = BoxValidator\(.*?appendIfNotEmpty\(iccWarnings\)
''', '''            iccCharacteristics = self._addICC(profile)
''', s, flags=re.S)), (BV, lambda s: re.sub(r'''            tagSignatureElements = .*?            # Step 3''', '''            tagSignatures = iccCharacteristics.findAllText("tag")

            # Step 3''', s, flags=re.S)), (BV, '''        elif meth == 3:
            # ICC profile embedded using "Any ICC" method. Used in JPEG 2000 Part 2
            # (JPX) and Part 15 (JPH)
            profile = self.boxContents[3:length]

            iccCharacteristics = self._addICC(profile)
''', '''        elif meth == 3:
            # ICC profile embedded using "Any ICC" method
            self._addICC(self.boxContents[3:])
''')]
EDITS['bv-icc-table'] = [(BV, lambda s: re.sub(r'''        # Profile connection space illuminants \(X, Y, Z\)
.*?        # Profile creator
''', '''        # Profile connection space illuminants (X, Y, Z)
        for axis, pos in zip("XYZ", range(68, 80, 4)):
            value = bc.bytesToUInt(self.boxContents[pos:pos + 4]) / 2 ** 16
            self.addCharacteristic("connectionSpaceIlluminant" + axis, round(value, 4))

        # Profile creator
''', s, flags=re.S)), (BV, lambda s: re.sub(r'''        # Transparency \(1 = .*?        # Rendering intent''', '''        for p, name in enumerate(("transparency", "glossiness", "polarity", "colour"), 1):
            self.addCharacteristic(name, self._getBitValue(deviceAttributes, p))

        # Rendering intent''', s, flags=re.S)), (BV, lambda s: re.sub(r'''        year = bc\..*?        self.addCharacteristic\("dateTimeString", dateTimeString\)
''', '''        year = bc.bytesToUShortInt(self.boxContents[24:26])
        rest = [bc.bytesToUnsignedChar(self.boxContents[i:i + 1]) for i in range(27, 37, 2)]
        self.addCharacteristic("dateTimeString", "%d/%02d/%02d, %02d:%02d:%02d" % tuple([year] + rest))
''', s, flags=re.S))]
EDITS['bv-icc-desc'] = [(BV, lambda s: re.sub(r'''        # List of tag signatures, offsets and sizes
.*?        self.addCharacteristic\("description", description\)
''', '''        description = ""
        descFound = False
        for tagStart in range(132, 132 + 12 * tagCount, 12):
            tagSignature = self.boxContents[tagStart:tagStart + 4]
            self.addCharacteristic("tag", tagSignature)
            if tagSignature == b'desc' and not descFound:
                # Description is in first description tag
                descFound = True
                start = bc.bytesToUInt(self.boxContents[tagStart + 4:tagStart + 8])
                size = bc.bytesToUInt(self.boxContents[tagStart + 8:tagStart + 12])
                descTag = self.boxContents[start:start + size]
                descriptionLength = bc.bytesToUInt(descTag[8:12])
                description = descTag[12:11 + descriptionLength]
        self.addCharacteristic("description", description)
''', s, flags=re.S))]
EDITS['bv-palette'] = [(BV, lambda s: re.sub(r'''            bDepthPadded = math.ceil.*?                offset \+= bytesPadded
''', '''            width = -(-bDepth // 8)
            base = nPC + 3 + i * nE * width
            for entry in range(nE):
                start = base + entry * width
                self.addCharacteristic("cP", bc.bytesToInteger(self.boxContents[start:start + width]))
''', s, flags=re.S))]
EDITS['bv-cmap'] = [method('validate_componentMappingBox', '''    def validate_componentMappingBox(self):
        """Component mapping box."""
        for offset in range(0, len(self.boxContents) // 4 * 4, 4):
            entry = self.boxContents[offset:offset + 4]
            cMP, mTyp, pCol = bc.bytesToUShortInt(entry[0:2]), bc.bytesToUnsignedChar(entry[2:3]), \\
                bc.bytesToUnsignedChar(entry[3:4])
            self.addCharacteristic("cMP", cMP)
            self.testFor("cMPIsValid", 0 <= cMP <= 16384)
            self.addCharacteristic("mTyp", mTyp)
            self.testFor("mTypIsValid", mTyp in (0, 1))
            self.addCharacteristic("pCol", pCol)
            self.testFor("pColIsValid", mTyp != 0 or pCol == 0)
''')]
EDITS['bv-cdef'] = [(BV, lambda s: re.sub(r'''        # This list is used to keep track of number of alpha
.*?    def validate_resolutionBox''', '''        allowedTypes = {'jp2': (0, 1, 2, 65535), 'jph': (0, 1, 2, 3, 65535)}.get(self.format)
        alphaAssocs = []
        for i in range(n):
            cN, cTyp, cAssoc = (bc.bytesToUShortInt(self.boxContents[pos:pos + 2])
                                for pos in (2 + i * 6, 4 + i * 6, 6 + i * 6))
            self.addCharacteristic("cN", cN)
            self.testFor("cNIsValid", cN >= 0)
            self.addCharacteristic("cTyp", cTyp)
            if allowedTypes:
                self.testFor("cTypIsValid", cTyp in allowedTypes)
            self.addCharacteristic("cAssoc", cAssoc)
            self.testFor("cAssocIsValid", cAssoc >= 0)
            if cTyp == 1 or cTyp == 2:
                alphaAssocs.append(cAssoc)

        if self.format == 'jph':
            self.testFor("noMoreThanOneAlphaChannel", len(alphaAssocs) < 2)
            for assoc in alphaAssocs:
                self.testFor("cAssocAlphaChannelIsZero", assoc == 0)

    def validate_resolutionBox''', s, flags=re.S))]
EDITS['bv-resolution-shared'] = [before('validate_captureResolutionBox', '''    def _validateResolution(self, kind):
        """Capture or display resolution box: kind is c or d."""
        self.testFor("boxLengthIsValid", len(self.boxContents) == 10)
        values = {}
        offset = 0
        for field in ("vR%sN", "vR%sD", "hR%sN", "hR%sD"):
            name = field % kind
            values[name] = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
            self.addCharacteristic(name, values[name])
            self.testFor(name + "IsValid", 1 <= values[name] <= 65535)
            offset += 2
        for field in ("vR%sE", "hR%sE"):
            name = field % kind
            values[name] = bc.bytesToSignedChar(self.boxContents[offset:offset + 1])
            self.addCharacteristic(name, values[name])
            self.testFor(name + "IsValid", -128 <= values[name] <= 127)
            offset += 1
        perMeter = {}
        perInch = {}
        for axis in ("v", "h"):
            num, den, exp = [values[axis + "R" + kind + part] for part in "NDE"]
            if den == 0:
                perMeter[axis] = perInch[axis] = -9999
            else:
                perMeter[axis] = (num / den) * 10 ** exp
                perInch[axis] = perMeter[axis] * 25.4e-3
        for axis in "vh":
            self.addCharacteristic("%sRes%sInPixelsPerMeter" % (axis, kind), round(perMeter[axis], 2))
        for axis in "vh":
            self.addCharacteristic("%sRes%sInPixelsPerInch" % (axis, kind), round(perInch[axis], 2))
'''), method('validate_captureResolutionBox', '''    def validate_captureResolutionBox(self):
        """Capture  Resolution Box."""
        self._validateResolution("c")
'''), method('validate_displayResolutionBox', '''    def validate_displayResolutionBox(self):
        """Default Display  Resolution Box."""
        self._validateResolution("d")
''')]
EDITS['bv-capability-table'] = [(BV, lambda s: re.sub(r'''        if extendendCapabilities == 1:
            capability = "CAP".*?        self.addCharacteristic\("capability", capability\)
''', '''        self.addCharacteristic(
            "capability", self._capability(extendendCapabilities, profile, subLevel, mainLevel))
''', s, flags=re.S)), before('validate_siz', '''    _EXTENDED = {1: "CAP", 2: "ISO/IEC 15444-2", 3: "ISO/IEC 15444-2 + CAP"}
    _SIMPLE = ("ISO/IEC 15444-1", "Profile 0", "Profile 1", "2K digital cinema profile",
               "4K digital cinema profile", "Scalable 2K digital cinema profile",
               "Scalable 4K digital cinema profile", "Long-term storage profile")
    _BROADCAST = {1: "Single Tile", 2: "Multi-tile", 3: "Multi-tile Reversible"}
    _UNKNOWN = "Unknown (value not defined in ISO/IEC 15444-1)"

    def _capability(self, extended, profile, subLevel, mainLevel):
        """Describe decoder capabilities."""
        if extended in self._EXTENDED:
            return self._EXTENDED[extended]
        if profile == 0:
            return self._SIMPLE[mainLevel] if mainLevel < len(self._SIMPLE) else self._UNKNOWN
        if profile in self._BROADCAST:
            return "Broadcast Contribution {} Profile, Mainlevel {}".format(self._BROADCAST[profile], mainLevel)
        if 4 <= profile <= 9:
            size = ("2k", "4k", "8k")[(profile - 4) % 3]
            kind = "Single Tile Lossy" if profile < 7 else "Single/Multi Tile Reversible"
            return "%s IMF %s Profile, Mainlevel %d; Sublevel %d" % (size, kind, mainLevel, subLevel)
        if profile == subLevel == mainLevel == 15:
            return "Profile signalled in Profile Marker"
        return self._UNKNOWN
''')]
EDITS['bv-siz-loop'] = [(BV, lambda s: re.sub(r'''        # Width of reference grid
        xsiz = bc\..*?        # Number of tiles
''', '''        sizes = {}
        top = 2 ** 32 - 1
        for i, (name, low, high) in enumerate((
                ("xsiz", 1, top), ("ysiz", 1, top), ("xOsiz", 0, top - 1), ("yOsiz", 0, top - 1),
                ("xTsiz", 1, top), ("yTsiz", 1, top), ("xTOsiz", 0, top - 1), ("yTOsiz", 0, top - 1))):
            sizes[name] = bc.bytesToUInt(self.boxContents[4 + 4 * i:8 + 4 * i])
            self.addCharacteristic(name, sizes[name])
            self.testFor(name + "IsValid", low <= sizes[name] <= high)
        xsiz, ysiz, xTsiz, yTsiz = sizes["xsiz"], sizes["ysiz"], sizes["xTsiz"], sizes["yTsiz"]
        xTOsiz, yTOsiz = sizes["xTOsiz"], sizes["yTOsiz"]

        # Number of tiles
''', s, flags=re.S))]
EDITS['bv-cod-precincts'] = [(BV, lambda s: s.replace('''                if i != 0:
                    precinctSizeXIsValid = precinctSizeX >= 2
                else:
                    precinctSizeXIsValid = True

                self.testFor("precinctSizeXIsValid", precinctSizeXIsValid)
''', '''                self.testFor("precinctSizeXIsValid", i == 0 or precinctSizeX >= 2)
''').replace('''                if i != 0:
                    precinctSizeYIsValid = precinctSizeY >= 2
                else:
                    precinctSizeYIsValid = True

                self.testFor("precinctSizeYIsValid", precinctSizeYIsValid)
''', '''                self.testFor("precinctSizeYIsValid", i == 0 or ppy > 0)
''').replace("precinctSizeX = 2 ** ppx", "precinctSizeX = 1 << ppx"))]
EDITS['bv-cod-style-table'] = [(BV, lambda s: re.sub(r'''        # Bit 8: selective arithmetic coding bypass
.*?        # Wavelet transformation''', '''        for name, bit, always in (("codingBypass", 8, True), ("resetOnBoundaries", 7, False),
                                  ("termOnEachPass", 6, True), ("vertCausalContext", 5, True),
                                  ("predTermination", 4, False), ("segmentationSymbols", 3, False)):
            if always or not onlyHT:
                self.addCharacteristic(name, self._getBitValue(codeBlockStyle, bit))

        # Wavelet transformation''', s, count=1, flags=re.S))]
EDITS['bv-qcd-helper'] = [before('validate_qcd', '''    def _muEpsilon(self, offset):
        """Report mu and epsilon of step size at offset."""
        step = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
        self.addCharacteristic("mu", step & 0x7FF)
        self.addCharacteristic("epsilon", step >> 11 & 0x1F)
'''), (BV, lambda s: re.sub(r'''        # Get number of decomposition levels from re-arrranged form of Eq A-4
.*?        # Possible enhancement here''', '''        if qStyle == 0:
            for offset in range(3, 3 + int((lqcd - 4) / 3)):
                spqcd = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
                self.addCharacteristic("epsilon", spqcd >> 3 & 31)
        elif qStyle == 1:
            self._muEpsilon(3)
        elif qStyle == 2:
            for i in range(int((lqcd - 5) / 6)):
                self._muEpsilon(3 + 2 * i)

        # Possible enhancement here''', s, count=1, flags=re.S))]
EDITS['bv-poc-reader'] = [method('validate_poc', '''    def validate_poc(self):
        """Progression order change (POC) header fields."""
        lpoc = bc.bytesToUShortInt(self.boxContents[0:2])
        self.addCharacteristic("lpoc", lpoc)
        self.testFor("lpocIsValid", 9 <= lpoc <= 65535)
        small = self.csiz < 257
        size, read, top = (1, bc.bytesToUnsignedChar, 255) if small else (2, bc.bytesToUShortInt, 16384)
        entry = 5 + 2 * size
        for i in range(int((lpoc - 2) / entry)):
            data = self.boxContents[2 + i * entry:2 + (i + 1) * entry]
            rspoc = bc.bytesToUnsignedChar(data[0:1])
            self.addCharacteristic("rspoc", rspoc)
            self.testFor("rspocIsValid", 0 <= rspoc <= 32)
            cspoc = read(data[1:1 + size])
            self.addCharacteristic("cspoc", cspoc)
            self.testFor("cspocIsValid", 0 <= cspoc <= (255 if small else 16383))
            lyepoc = bc.bytesToUShortInt(data[1 + size:3 + size])
            self.addCharacteristic("lyepoc", lyepoc)
            self.testFor("lyepocIsValid", lyepoc >= 1)
            repoc = bc.bytesToUnsignedChar(data[3 + size:4 + size])
            self.addCharacteristic("repoc", repoc)
            self.testFor("repocIsValid", rspoc < repoc <= 33)
            cepoc = read(data[4 + size:4 + 2 * size])
            self.addCharacteristic("cepoc", cepoc)
            self.testFor("cepocIsValid", cepoc == 0 or cspoc < cepoc <= top)
            order = bc.bytesToUnsignedChar(data[4 + 2 * size:])
            self.addCharacteristic("order", order)
            self.testFor("orderIsValid", 0 <= order <= 4)
''')]
EDITS['bv-com-early'] = [(BV, lambda s: re.sub(r'''        if rcom == 0:
            # no validation of binary comment content
.*?    def validate_cap''', '''        commentIsValid = False
        if rcom == 0:
            comment = bc.bytesToHex(comment)
            commentIsValid = True
        elif rcom == 1:
            try:
                comment = comment.decode("iso-8859-15")
            except UnicodeError:
                comment = ""
            commentIsValid = comment == bc.removeControlCharacters(comment)
        self.testFor("commentIsValid", commentIsValid)
        if not commentIsValid:
            return
        self.addCharacteristic("comment", comment)

    def validate_cap''', s, flags=re.S))]
EDITS['bv-cap-comprehension'] = [(BV, lambda s: re.sub(r'''        # Extract values of individual bits in pcap to list
.*?        # Meaning of ccap fields''', '''        pcapParts = [part for part in range(1, 33) if pcap >> (32 - part) & 1]
        for part in pcapParts:
            self.addCharacteristic("pcapPart", part)

        # Test if noccaps is consistent with lcap
        self.testFor("lcapIsValid", lcap == 6 + 2 * len(pcapParts))

        ccaps = [bc.bytesToUShortInt(self.boxContents[6 + 2 * i:8 + 2 * i]) for i in range(len(pcapParts))]

        # Meaning of ccap fields''', s, flags=re.S)), (BV, lambda s: re.sub(r'''                # Value of b as a function of p
.*?                self.addCharacteristic\("htB", htB\)
''', '''                self.addCharacteristic("htB", self._magnitudeBound(p))
''', s, flags=re.S)), before('validate_prf', '''    @staticmethod
    def _magnitudeBound(p):
        """Parameter B of MAGB set."""
        if p < 20:
            return p + 8
        if p < 31:
            return 4 * (p - 19) + 27
        return 74
''')]
EDITS['bv-prf-shift'] = [(BV, lambda s: s.replace('''        for i in range(nopprfs):
            pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
            PRFnum += pprf * 2 ** (16 * i)
            offset += 2
            if i == nopprfs - 1:
                # last pprf shall not be zero
                self.testFor("pprfIsValid", pprf != 0)
''', '''        for i in range(nopprfs):
            pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
            PRFnum += pprf * (1 << 16 * i)
            offset += 2
        if nopprfs > 0:
            # last pprf shall not be zero
            self.testFor("pprfIsValid", pprf != 0)
'''))]
EDITS['bv-sot-inline'] = [method('validate_sot', '''    def validate_sot(self):
        """Start of tile-part (SOT) marker segment."""
        readers = {1: bc.bytesToUnsignedChar, 2: bc.bytesToUShortInt, 4: bc.bytesToUInt}
        offset = 0
        for name, size, isOK in (("lsot", 2, lambda v: v == 10),
                                 ("isot", 2, lambda v: 0 <= v < 65535),
                                 ("psot", 4, lambda v: v < 1 or v > 13),
                                 ("tpsot", 1, lambda v: 0 <= v <= 254),
                                 ("tnsot", 1, None)):
            value = readers[size](self.boxContents[offset:offset + size])
            offset += size
            self.addCharacteristic(name, value)
            if isOK is not None:
                self.testFor(name + "IsValid", isOK(value))
            if name == "psot":
                self.tilePartLength = value
''')]
EDITS['bv-tilepart-dispatch'] = [(BV, lambda s: re.sub(r'''        while marker != b'\\xff\\x93' and offsetNext != -9999:
.*?        # Last marker segment must be start-of-data \(SOD\) marker
''', lambda m: r'''        plain = {b'\xff\x52', b'\xff\x5c', b'\xff\x64'}
        perComponent = {b'\xff\x53', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f'}
        packets = {b'\xff\x58', b'\xff\x61'}
        while marker != b'\xff\x93' and offsetNext != -9999:
            marker, _, segContents, offsetNext = self._getMarkerSegment(offset)
            offset = offsetNext
            if marker not in plain | perComponent | packets:
                # Unknown marker segment: ignore and move on to next one
                continue
            if marker == b'\xff\x58':
                pltCount += 1
            elif marker == b'\xff\x61':
                pptCount += 1
            results = BoxValidator(
                self.options, marker, segContents,
                components=self.csiz if marker in perComponent else None).validate()
            self.tests.appendIfNotEmpty(results.tests)
            if marker not in packets or self.packetmarkersFlag:
                self.characteristics.append(results.characteristics)
            self.warnings.appendIfNotEmpty(results.warnings)

        # Last marker segment must be start-of-data (SOD) marker
''', s, flags=re.S))]
EDITS['bv-codestream-dispatch'] = [(BV, lambda s: re.sub(r'''            while marker != b'\\xff\\x90' and offsetNext != -9999:
.*?            # Add ppmCount and plmCount value to characteristics
''', lambda m: r'''            withComponents = (b'\xff\x53', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f', b'\xff\x63')
            known = withComponents + (b'\xff\x52', b'\xff\x5c', b'\xff\x64', b'\xff\x50', b'\xff\x56',
                                      b'\xff\x59', b'\xff\x55', b'\xff\x57', b'\xff\x60')
            found = {}
            while True:
                if marker == b'\xff\x90' or offsetNext == -9999:
                    break
                marker, _, segContents, offsetNext = self._getMarkerSegment(offset)
                if marker == b'\xff\x90':
                    # Start of tile: end of main header
                    break
                found[marker] = found.get(marker, 0) + 1
                offset = offsetNext
                if marker not in known:
                    continue
                results = BoxValidator(
                    self.options, marker, segContents,
                    components=csiz if marker in withComponents else None).validate()
                self.tests.appendIfNotEmpty(results.tests)
                if self.packetmarkersFlag or marker not in (b'\xff\x57', b'\xff\x60'):
                    self.characteristics.append(results.characteristics)
                self.warnings.appendIfNotEmpty(results.warnings)

            foundCODMarker = b'\xff\x52' in found
            foundQCDMarker = b'\xff\x5c' in found
            foundCAPMarker = b'\xff\x50' in found
            plmCount = found.get(b'\xff\x57', 0)
            ppmCount = found.get(b'\xff\x60', 0)

            # Add ppmCount and plmCount value to characteristics
''', s, flags=re.S))]
EDITS['bv-codestream-split'] = [(BV, lambda s: re.sub(r'''            # Test if all ccoc values at main header level are unique
.*?            # Last 2 bytes must be end-of-codestream marker
''', '''            self._maxOnePerComponent('coc/ccoc', "maxOneCcocPerComponentMain")
            self._maxOnePerComponent('qcc/cqcc', "maxOneCqccPerComponentMain")

            # Last 2 bytes must be end-of-codestream marker
''', s, flags=re.S)), (BV, lambda s: re.sub(r'''        # Test if all ccoc values \(if present\) within this tile part are unique
.*?        # Position of first byte in next tile
''', '''        self._maxOnePerComponent('coc/ccoc', "maxOneCcocPerComponentTP")
        self._maxOnePerComponent('qcc/cqcc', "maxOneCqccPerComponentTP")

        # Position of first byte in next tile
''', s, flags=re.S)), before('testFor', '''    def _maxOnePerComponent(self, path, testName):
        """Test that no component has more than one marker segment of some type."""
        values = [elt.text for elt in self.characteristics.findall(path)]
        if values:
            self.testFor(testName, len(values) == len(set(values)))
''')]
EDITS['bv-tiles-dicts'] = [(BV, '''            # Create entry for each tile part and initialise value at 0
            for i in range(numberOfTilesExpected):
                tilePartsPerTileFound[i] = 0
''', '''            tilePartsPerTileFound = dict.fromkeys(range(numberOfTilesExpected), 0)
'''), (BV, '''                    try:
                        tilePartsPerTileFound[
                            tileIndex] = tilePartsPerTileFound[tileIndex] + 1
                    except KeyError:
                        # Get the f**k out of here if tileIndex is not in
                        # tilePartsPerTileFound (e.g. because the isot field is
                        # damaged)
                        break
                    if offsetNext > offset:
                        offset = offsetNext
                    else:
''', '''                    if tileIndex not in tilePartsPerTileFound:
                        # isot field is damaged
                        break
                    tilePartsPerTileFound[tileIndex] += 1
                    if offsetNext > offset:
                        offset = offsetNext
                    else:
'''), (BV, '''            # Create list with one entry for each tile
            tileIndices = []
''', '''            tileIndices = set()
'''), (BV, '''                    if tileIndex not in tileIndices:
                        tileIndices.append(tileIndex)
''', '''                    tileIndices.add(tileIndex)
''')]
EDITS['bv-tilepart-allowed-loop'] = [(BV, lambda s: re.sub(r'''        if self.characteristics.findall\('cod'\):
.*?            self.testFor\("RGNAllowed", tpsot == 0\)
''', '''        for name in ('cod', 'coc', 'qcd', 'qcc', 'rgn'):
            if self.characteristics.find(name) is not None:
                self.testFor(name.upper() + "Allowed", tpsot == 0)
''', s, flags=re.S))]
EDITS['bv-xml-shared'] = [before('validate_xmlBox', '''    def _addXML(self, data):
        """Add XML data to characteristics; return True if it is well-formed."""
        try:
            self.characteristics.append(ET.fromstring(data))
            return True
        except Exception:
            pass
        if self.nullxmlFlag:
            try:
                self.characteristics.append(ET.fromstring(bc.removeNullTerminator(data)))
            except Exception:
                pass
        return False
'''), method('validate_xmlBox', '''    def validate_xmlBox(self):
        """XML Box (ISO/IEC 15444-1 Section I.7.1)."""
        self.testFor("containsWellformedXML", self._addXML(self.boxContents))
''')]
EDITS['bv-uuid-const'] = [(BV, '''        boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))

        if boxUUID == "be7acfcb-97a9-42e8-9c71-999491e3afac":
''', '''        boxUUID = str(uuid.UUID(bytes=self.boxContents[:16]))
        xmpUUID = "be7acfcb-97a9-42e8-9c71-999491e3afac"

        if xmpUUID == boxUUID:
'''), (BV, '''            data = self.boxContents[16:boxLength]
''', '''            data = self.boxContents[16:]
''')]
EDITS['bv-url-flat'] = [(BV, '''        loc = self.boxContents[4:len(self.boxContents)]
''', '''        loc = self.boxContents[4:]
'''), (BV, '''        self.testFor("locHasNullTerminator", loc.endswith(b'\\x00'))
''', '''        self.testFor("locHasNullTerminator", loc[-1:] == b'\\x00')
'''), (BV, '''        try:
            loc.decode("utf-8", "strict")
            self.testFor("locIsUTF8", True)
        except UnicodeDecodeError:
            self.testFor("locIsUTF8", False)
''', '''        isUTF8 = True
        try:
            loc.decode("utf-8")
        except UnicodeError:
            isUTF8 = False
        self.testFor("locIsUTF8", isUTF8)
''')]
EDITS['bv-jp2-order'] = [(BV, lambda s: re.sub(r'''        # Is the first box a Signature Box \(ISO/IEC 15444-1 Section I.5.1\)\?
.*?        self.testFor\("firstBoxIsSignatureBox", firstBoxIsSignatureBox\)
''', '''        firstBoxIsSignatureBox = boxTypes[:1] == [tagSignatureBox]
        secondBoxIsFileTypeBox = len(boxTypes) > 1 and boxTypes[1] == tagFileTypeBox
        if containsJP2HeaderBox and containsContiguousCodestreamBox:
            locationJP2HeaderBoxIsValid = 1 < boxTypes.index(tagJP2HeaderBox) < \\\\
                boxTypes.index(tagContiguousCodestreamBox)
        else:
            locationJP2HeaderBoxIsValid = False

        self.testFor("firstBoxIsSignatureBox", firstBoxIsSignatureBox)
''', s, flags=re.S))]
EDITS['bv-jp2-consistency'] = [(BV, lambda s: re.sub(r'''                # Create list of bPCSign values \(i.e. duplicate fixed
.*?            # All occurrences of ssizSign to list
''', '''                bPCSignValues = [bPCSign] * nC
                bPCDepthValues = [bPCDepth for _ in range(nC)]

            # All occurrences of ssizSign to list
''', s, flags=re.S)), (BV, lambda s: re.sub(r'''                try:
                    bPCSignValues = bpcBox.findAllText\('bPCSign'\)
.*?                    bPCDepthValues = \[\]

            else:''', '''                if bpcBox is None:
                    bPCSignValues, bPCDepthValues = [], []
                else:
                    bPCSignValues = bpcBox.findAllText('bPCSign')
                    bPCDepthValues = bpcBox.findAllText('bPCDepth')

            else:''', s, flags=re.S))]
EDITS['bv-jp2-early-exit'] = [(BV, lambda s: s.replace('''        if jp2ImageHeader is not None and sizHeader is not None:

            # Height''', '''        if jp2ImageHeader is None or sizHeader is None:
            self.isValid = self._isValid()
            return
        else:

            # Height'''))]
EDITS['bv-walrus'] = [(BV, '''        if self.characteristics.findall('cod'):
            self.testFor("CODAllowed", tpsot == 0)
''', '''        if (elements := self.characteristics.findall('cod')):
            self.testFor("CODAllowed", tpsot == 0)
'''), (BV, '''        if tilePartLength != 0:
''', '''        if (hasLength := tilePartLength != 0) and hasLength:
''')]
EDITS['bv-match'] = [(BV, '''        if self.format == 'jp2':
            self.testFor("brandIsValid", br == b'\\x6a\\x70\\x32\\x20')
        elif self.format == 'jph':
            self.testFor("brandIsValid", br == b'\\x6a\\x70\\x68\\x20')
''', '''        match self.format:
            case 'jp2':
                self.testFor("brandIsValid", br == b'jp2 ')
            case 'jph':
                self.testFor("brandIsValid", br == b'jph ')
''')]
EDITS['bv-contents-alias'] = [(BV, lambda s: re.sub(r'''(    def validate_(?:siz|cod|coc|qcd|icc|rgn|crg)\(self\):\n        """.*?"""\n)(.*?)(?=\n    def )''',
    lambda m: m.group(1) + '        data = self.boxContents\n        ushort = bc.bytesToUShortInt\n' + m.group(2).replace('self.boxContents', 'data').replace('bc.bytesToUShortInt', 'ushort'), s, flags=re.S))]

EDITS['mx-text-helper'] = [(MX, lambda s: re.sub(r"properties\.find\(\s*('[^']*')\)\.text", r"self._text(properties, \1)", s)),
                           (MX, lambda s: s.replace("    def generateMixBasicDigitalObjectInformation", """    @staticmethod
    def _text(properties, path):
        \"\"\"Text of element that must exist.\"\"\"
        return properties.find(path).text

    def generateMixBasicDigitalObjectInformation""", 1))]
EDITS['mx-sub-helper'] = [(MX, lambda s: re.sub(r"""            mixXSamplingFrequency = .*?            mixIam\.append\(mixSm\)
""", """            for name, value in (('mix:xSamplingFrequency', numX), ('mix:ySamplingFrequency', numY)):
                frequency = ET.Element(name)
                frequency.appendChildTagWithText('mix:numerator', str(value))
                frequency.appendChildTagWithText('mix:denominator', '10000')
                mixSm.append(frequency)
            mixIam.append(mixSm)
""", s, flags=re.S))]
EDITS['mx-resolution'] = [(MX, lambda s: re.sub(r"""        resolutionBox = properties\.find\(
            'jp2HeaderBox/resolutionBox/captureResolutionBox'\)
.*?        if resolutionBox is not None:
            mixSm""", """        for boxName, letter in (('captureResolutionBox', 'c'), ('displayResolutionBox', 'd')):
            resolutionBox = properties.find('jp2HeaderBox/resolutionBox/' + boxName)
            if resolutionBox is not None:
                numX, numY = [int(float(resolutionBox.find(
                    '%sRes%sInPixelsPerMeter' % (axis, letter)).text) * 100) for axis in 'hv']
                break
        if resolutionBox is not None:
            mixSm""", s, flags=re.S))]
EDITS['mx-ratio'] = [(MX, lambda s: re.sub(r"""        if self\.mixFlag == 1:
            # compressionRatio is a int in mix 1.*?        mixBdoi\.append\(mixComp\)
""", """        ratio = float(properties.find('compressionRatio').text)
        if self.mixFlag == 1:
            mixComp.appendChildTagWithText('mix:compressionRatio', str(int(round(ratio))))
        else:
            mixCompRatio = ET.Element('mix:compressionRatio')
            mixCompRatio.appendChildTagWithText('mix:numerator', str(int(round(ratio * 100))))
            mixCompRatio.appendChildTagWithText('mix:denominator', '100')
            mixComp.append(mixCompRatio)
        mixBdoi.append(mixComp)
""", s, flags=re.S))]
EDITS['mx-constants'] = [(MX, lambda s: s.replace("'{http://www.w3.org/1999/02/22-rdf-syntax-ns#}Description'", "RDF_NS + 'Description'")
                          .replace("'{http://ns.adobe.com/tiff/1.0/}'", "TIFF_NS").replace("class Mix:", """RDF_NS = '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}'
TIFF_NS = '{http://ns.adobe.com/tiff/1.0/}'


class Mix:"""))]
EDITS['mx-rdf-loop'] = [(MX, lambda s: re.sub(r"""        rdfBox = properties\.find\('xmlBox.*?            return None
""", """        rdfBox = None
        for box in ('xmlBox', 'uuidBox'):
            rdfBox = properties.find(box + '/{adobe:ns:meta/}xmpmeta/'
                                     '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}RDF')
            if rdfBox:
                break
        if not rdfBox:
            return None
""", s, flags=re.S))]
EDITS['mx-bits'] = [(MX, lambda s: s.replace("','.join(map(lambda e: e.text, values))", "','.join([e.text for e in values])").replace("""            mixBPS = ET.Element('mix:bitsPerSample')
            mixICE.append(mixBPS)
""", """            mixBPS = ET.Element('mix:bitsPerSample')
""").replace("""            mixBPS.appendChildTagWithText('mix:bitsPerSampleUnit', 'integer')
        else:""", """            mixBPS.appendChildTagWithText('mix:bitsPerSampleUnit', 'integer')
            mixICE.append(mixBPS)
        else:"""))]
EDITS['mx-version-table'] = [(MX, lambda s: re.sub(r"""        if self\.mixFlag == 1:
            nsString = .*?        mixRoot = ET""", """        nsString, schema = {1: ('http://www.loc.gov/mix/v10', 'mix10/mix10.xsd')}.get(
            self.mixFlag, ('http://www.loc.gov/mix/v20', 'mix.xsd'))
        locSchemaString = nsString + ' http://www.loc.gov/standards/mix/' + schema

        mixRoot = ET""", s, flags=re.S))]
EDITS['mx-root-loop'] = [(MX, lambda s: re.sub(r"""        mixBdoi = self\.generateMixBasic.*?        return mixRoot
""", """        parts = [self.generateMixBasicDigitalObjectInformation(properties),
                 self.generateMixBasicImageInformation(properties)]
        capture = self.generateMixImageCaptureMetadata(properties)
        if capture is not None and len(capture) > 0:
            parts.append(capture)
        parts.append(self.generateMixImageAssessmentMetadata(properties))
        for part in parts:
            mixRoot.append(part)
        return mixRoot
""", s, flags=re.S))]
EDITS['mx-find-rdf'] = [(MX, lambda s: re.sub(r"""        path = prefixPath \+ "/" \+ ns \+ tag
.*?        return None

    @staticmethod
    def addIf""", """        element = prop.find('%s/%s%s' % (prefixPath, ns, tag))
        if element is not None:
            return element.text
        description = prop.find(prefixPath)
        if description is not None:
            return description.attrib.get(ns + tag) or None
        return None

    @staticmethod
    def addIf""", s, flags=re.S))]
