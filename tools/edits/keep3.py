"""More hand-written changes that keep the behaviour: library helpers, local functions, unusual but ordinary idioms."""
import ast
import re
BV, JP, ETP, BC, SH, MX = 'boxvalidator.py', 'jpylyzer.py', 'etpatch.py', 'byteconv.py', 'shared.py', 'mix.py'
EDITS = {}


def sub(f, pat, rep, n=0, flags=re.S):
    def g(s):
        r = (lambda m: rep) if isinstance(rep, str) and not re.search(r'\\\d', rep) else rep
        t, k = re.subn(pat, r, s, count=n, flags=flags)
        assert k, pat
        return t
    return (f, g)


def function(f, name, src, cls=None):
    def g(s):
        body = ast.parse(s).body
        if cls:
            body = [c for c in body if isinstance(c, ast.ClassDef) and c.name == cls][0].body
        for m in body:
            if isinstance(m, ast.FunctionDef) and m.name == name:
                lines = s.splitlines(True)
                a = min([m.lineno] + [d.lineno for d in m.decorator_list])
                return ''.join(lines[:a - 1]) + src + ''.join(lines[m.end_lineno:])
        raise SystemExit('no function ' + name)
    return (f, g)


def method(name, src):
    return function(BV, name, src, 'BoxValidator')


def imp(f, line, anchor):
    return (f, lambda s: s.replace(anchor, line + '\n' + anchor, 1))


EDITS['counter-tileparts'] = [imp(BV, 'from collections import Counter', 'import math'), (BV, '''            for i in range(numberOfTilesExpected):
                tilePartsPerTileFound[i] = 0
''', '''            tilePartsPerTileFound = {i: 0 for i in range(numberOfTilesExpected)}
'''), (BV, '''        self.testFor("noMoreThanOneImageHeaderBox", subBoxTypes.count(
            self.boxTagMap['imageHeaderBox']) <= 1)
''', '''        occurrences = Counter(subBoxTypes)
        self.testFor("noMoreThanOneImageHeaderBox",
                     occurrences[self.boxTagMap['imageHeaderBox']] <= 1)
''')]
EDITS['header-once-loop'] = [sub(BV, r'''        self.testFor\("noMoreThanOneImageHeaderBox".*?self.boxTagMap\['resolutionBox'\]\) <= 1\)
''', '''        for name in ("ImageHeaderBox", "BitsPerComponentBox", "PaletteBox", "ComponentMappingBox",
                     "ChannelDefinitionBox", "ResolutionBox"):
            tag = self.boxTagMap[name[0].lower() + name[1:]]
            self.testFor("noMoreThanOne" + name, subBoxTypes.count(tag) <= 1)
''')]
EDITS['header-palette-xor'] = [sub(BV, r'''        if \(\(self.boxTagMap\['paletteBox'\] in subBoxTypes and.*?OnlyTogether = True
''', '''        hasPalette = self.boxTagMap['paletteBox'] in subBoxTypes
        hasMapping = self.boxTagMap['componentMappingBox'] in subBoxTypes
        paletteAndComponentMappingBoxesOnlyTogether = hasPalette == hasMapping
''')]
EDITS['header-palette-xor2'] = [sub(BV, r'''        if \(\(self.boxTagMap\['paletteBox'\] in subBoxTypes and.*?OnlyTogether = True
''', '''        paletteAndComponentMappingBoxesOnlyTogether = not (
            (self.boxTagMap['paletteBox'] in subBoxTypes) ^ (self.boxTagMap['componentMappingBox'] in subBoxTypes))
''')]
EDITS['header-first'] = [sub(BV, r'''        try:
            firstJP2HeaderBoxIsImageHeaderBox = .*?            firstJP2HeaderBoxIsImageHeaderBox = False
''', '''        firstJP2HeaderBoxIsImageHeaderBox = bool(subBoxTypes) and \\
            subBoxTypes[0] == self.boxTagMap['imageHeaderBox']
''')]
EDITS['header-first-slice'] = [sub(BV, r'''        try:
            firstJP2HeaderBoxIsImageHeaderBox = .*?            firstJP2HeaderBoxIsImageHeaderBox = False
''', '''        firstJP2HeaderBoxIsImageHeaderBox = subBoxTypes[:1] == [self.boxTagMap['imageHeaderBox']]
''')]
EDITS['filetype-any'] = [sub(BV, r'''        cLList = \[\]
        offset = 8
.*?        if self.format == 'jp2':
            self.testFor\(
                "compatibilityListIsValid",
                b'\\x6a\\x70\\x32\\x20' in cLList\)
''', r'''        cLList = [self.boxContents[8 + 4 * k:12 + 4 * k] for k in range(int(numberOfCompatibilityFields))]
        for cL in cLList:
            self.addCharacteristic("cL", cL)

        if self.format == 'jp2':
            self.testFor("compatibilityListIsValid", any(cL == b'jp2 ' for cL in cLList))
''')]
EDITS['filetype-mod'] = [(BV, '''        self.testFor("boxLengthIsValid", numberOfCompatibilityFields == int(
            numberOfCompatibilityFields))
''', '''        self.testFor("boxLengthIsValid", (len(self.boxContents) - 8) % 4 == 0)
''')]
EDITS['filetype-divmod'] = [(BV, '''        numberOfCompatibilityFields = (len(self.boxContents) - 8) / 4
''', '''        numberOfCompatibilityFields, remainder = divmod(len(self.boxContents) - 8, 4)
'''), (BV, '''        self.testFor("boxLengthIsValid", numberOfCompatibilityFields == int(
            numberOfCompatibilityFields))
''', '''        self.testFor("boxLengthIsValid", remainder == 0)
'''), (BV, 'range(int(numberOfCompatibilityFields))', 'range(numberOfCompatibilityFields)')]
EDITS['siz-reader'] = [sub(BV, r'''    def validate_signatureBox''', '''    def _uint(self, start, size):
        """Read big-endian unsigned integer."""
        readers = {1: bc.bytesToUnsignedChar, 2: bc.bytesToUShortInt, 4: bc.bytesToUInt, 8: bc.bytesToULongLong}
        return readers[size](self.boxContents[start:start + size])

    def validate_signatureBox'''), sub(BV, r'bc\.bytesToUInt\(self\.boxContents\[(\d+):\d+\]\)', r'self._uint(\1, 4)'),
    sub(BV, r'bc\.bytesToUShortInt\(self\.boxContents\[(\d+):\d+\]\)', r'self._uint(\1, 2)'),
    sub(BV, r'bc\.bytesToUnsignedChar\(self\.boxContents\[(\d+):\d+\]\)', r'self._uint(\1, 1)')]
EDITS['read-and-report'] = [sub(BV, r'''    def validate_signatureBox''', '''    def _addUShort(self, name, start):
        value = bc.bytesToUShortInt(self.boxContents[start:start + 2])
        self.addCharacteristic(name, value)
        return value

    def validate_signatureBox'''), sub(BV, r'''(\w+) = bc\.bytesToUShortInt\(self\.boxContents\[(\d+):\d+\]\)
        self\.addCharacteristic\("(\w+)", \1\)
''', r'''\1 = self._addUShort("\3", \2)
''')]
EDITS['range-helper'] = [sub(BV, r'''    def validate_signatureBox''', '''    @staticmethod
    def _within(value, lower, upper):
        return not (value < lower or value > upper)

    def validate_signatureBox'''), sub(BV, r'(?<![-\d])(\d+) <= (\w+) <= (\d+)\)', r'self._within(\2, \1, \3))')]
EDITS['range-in'] = [sub(BV, r'(?<![-\d])(\d+) <= (\w+) <= (\d+)\)', lambda m: '%s in range(%s, %d))' % (m.group(2), m.group(1), int(m.group(3)) + 1))]
EDITS['range-and'] = [sub(BV, r'(?<![-\d])(\d+) <= (\w+) <= (\d+)\)', r'\2 >= \1 and \2 <= \3)')]
EDITS['colr-lambda-table'] = [sub(BV, r'''        if self.format == 'jp2':
            # Value must be 1 \(enumerated.*?meth in \[1, 2, 3, 5\]\)
''', '''        allowedMethods = {'jp2': (1, 2), 'jph': (1, 2, 3, 5)}.get(self.format)
        if allowedMethods is not None:
            self.testFor("methIsValid", meth in allowedMethods)
''')]
EDITS['colr-frozenset'] = [sub(BV, r'colPrims in \[1, 2, 4, 5,.*?22\]', 'colPrims in frozenset((1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22))'),
                           sub(BV, r'transfC in \[1, 2, 4, 5,.*?18\]', 'transfC in {1, 2} | set(range(4, 19))'),
                           sub(BV, r'matCoeffs in \[0, 1, 2, 4,.*?14\]', '0 <= matCoeffs <= 14 and matCoeffs != 3')]
EDITS['colr-tags-comp'] = [sub(BV, r'''            tagSignatureElements = .*?b'A2B0' not in tagSignatures\)
''', '''            self.testFor("iccNoLUTBasedProfile",
                         all(tag.text != b'A2B0' for tag in iccCharacteristics.iter("tag")))
''')]
EDITS['icc-strftime'] = [sub(BV, r'''        dateString = .*?        dateTimeString = [^\n]*
''', '''        dateTimeString = "{:d}/{:02d}/{:02d}, {:02d}:{:02d}:{:02d}".format(
            year, month, day, hour, minute, second)
''')]
EDITS['icc-date-fstring'] = [sub(BV, r'''        dateString = .*?        dateTimeString = [^\n]*
''', '''        dateTimeString = f"{year}/{month:02}/{day:02}, {hour:02}:{minute:02}:{second:02}"
''')]
EDITS['icc-version-join'] = [sub(BV, r'''        profileVersion = "%s.%s.%s" % \(
[^\n]*
''', '''        profileVersion = ".".join(
            str(v) for v in (profileMajorRevision, profileMinorRevision, profileBugFixRevision))
''')]
EDITS['icc-version-divmod'] = [sub(BV, r'''        profileMinorRevision = profileMinorRevisionByte >> 4
''', '''        profileMinorRevision, profileBugFixRevision = divmod(profileMinorRevisionByte, 16)
'''), sub(BV, r'''        profileBugFixRevision = profileMinorRevisionByte & 15
''', '')]
EDITS['icc-illuminant-zip'] = [sub(BV, r'''        connectionSpaceIlluminantX = round.*?"connectionSpaceIlluminantZ", connectionSpaceIlluminantZ\)
''', '''        for axis, start in zip("XYZ", (68, 72, 76)):
            illuminant = bc.bytesToUInt(self.boxContents[start:start + 4])
            self.addCharacteristic("connectionSpaceIlluminant" + axis, round(illuminant / 65536, 4))
''')]
EDITS['icc-tags-dict'] = [sub(BV, r'''        tagSignatures = \[\]
        tagOffsets = \[\]
        tagSizes = \[\]
''', '''        tags = []
'''), sub(BV, r'''            tagSignatures.append\(tagSignature\)
            tagOffsets.append\(tagOffset\)
            tagSizes.append\(tagSize\)
''', '''            tags.append((tagSignature, tagOffset, tagSize))
'''), sub(BV, r'''            i = tagSignatures.index\(b'desc'\)
            descStartOffset = tagOffsets\[i\]
            descSize = tagSizes\[i\]
''', '''            _, descStartOffset, descSize = next(t for t in tags if t[0] == b'desc')
''')]
EDITS['palette-bytes'] = [(BV, '''            bDepthPadded = math.ceil(bDepth / 8) * 8
            bytesPadded = int(bDepthPadded / 8)
''', '''            bytesPadded = (bDepth + 7) // 8
''')]
EDITS['palette-ceil'] = [(BV, '''            bDepthPadded = math.ceil(bDepth / 8) * 8
            bytesPadded = int(bDepthPadded / 8)
''', '''            bytesPadded = math.ceil(bDepth / 8)
''')]
EDITS['palette-range-step'] = [sub(BV, r'''            for _ in range\(nE\):
                # Get bytes for this entry.*?                offset \+= bytesPadded
''', '''            for entryStart in range(offset, offset + nE * bytesPadded, bytesPadded):
                self.addCharacteristic("cP", bc.bytesToInteger(self.boxContents[entryStart:entryStart + bytesPadded]))
''')]
EDITS['cmap-implication'] = [sub(BV, r'''            if mTyp == 0:
                pColIsValid = pCol == 0
            else:
                pColIsValid = True
''', '''            pColIsValid = mTyp != 0 or pCol == 0
''')]
EDITS['cdef-alpha-filter'] = [sub(BV, r'''                alphaChannels.append\(\[cTyp, cAssoc\]\)''', '''                alphaChannels.append(cAssoc)'''),
                              sub(BV, r'''            for channel in alphaChannels:
                self.testFor\("cAssocAlphaChannelIsZero", channel\[1\] == 0\)
''', '''            for assoc in alphaChannels:
                self.testFor("cAssocAlphaChannelIsZero", not assoc)
''')]
EDITS['res-nested-function'] = [sub(BV, r'''        if vRcD != 0:
            vRescInPixelsPerMeter = .*?            hRescInPixelsPerMeter = hRescInPixelsPerInch = -9999
''', '''        def resolution(num, den, exp):
            if den == 0:
                return -9999, -9999
            perMeter = (num / den) * (10 ** exp)
            return perMeter, perMeter * 25.4e-3

        vRescInPixelsPerMeter, vRescInPixelsPerInch = resolution(vRcN, vRcD, vRcE)
        hRescInPixelsPerMeter, hRescInPixelsPerInch = resolution(hRcN, hRcD, hRcE)
''')]
EDITS['res-conditional'] = [sub(BV, r'''        if vRdD != 0:
            vResdInPixelsPerMeter = .*?            hResdInPixelsPerMeter = hResdInPixelsPerInch = -9999
''', '''        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** vRdE) if vRdD else -9999
        vResdInPixelsPerInch = vResdInPixelsPerMeter * 25.4e-3 if vRdD else -9999
        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** hRdE) if hRdD else -9999
        hResdInPixelsPerInch = hResdInPixelsPerMeter * 25.4e-3 if hRdD else -9999
''')]
EDITS['codestream-found-dict'] = [(BV, lambda s: re.sub(r'^(\s+)found(PRF|CPF|CAP|COD|QCD)Marker = (True|False)$', r'\1found["\2"] = \3',
                                                        s.replace('''            # Initial values for marker found flags
''', '''            found = {}
'''), flags=re.M)), sub(BV, r'(self\.testFor\(\s*"found(CAP|COD|QCD|PRF|CPF)Marker", )found\2Marker', r'\1found["\2"]'),
]
EDITS['codestream-unique-helper'] = [sub(BV, r'''            ccocElementsMain = .*?set\(cqccValuesMain\)\) == len\(cqccValuesMain\)\)
''', '''            for path, test in (('coc/ccoc', "maxOneCcocPerComponentMain"),
                               ('qcc/cqcc', "maxOneCqccPerComponentMain")):
                values = self.characteristics.findAllText(path)
                if values:
                    self.testFor(test, len(values) == len(set(values)))
''')]
EDITS['codestream-unique-loop'] = [sub(BV, r'''                self.testFor\(
                    "maxOneCcocPerComponentMain", len\(
                        set\(ccocValuesMain\)\) == len\(ccocValuesMain\)\)
''', '''                seen = set()
                unique = True
                for value in ccocValuesMain:
                    if value in seen:
                        unique = False
                    seen.add(value)
                self.testFor("maxOneCcocPerComponentMain", unique)
''')]
EDITS['codestream-unique-count'] = [sub(BV, r'''                self.testFor\(
                    "maxOneCcocPerComponentMain", len\(
                        set\(ccocValuesMain\)\) == len\(ccocValuesMain\)\)
''', '''                self.testFor("maxOneCcocPerComponentMain",
                             all(ccocValuesMain.count(v) == 1 for v in ccocValuesMain))
''')]
EDITS['codestream-endswith'] = [sub(BV, r'''self.boxContents\[length - 2:length\] == b'\\xff\\xd9'\)''', r'''self.boxContents[-2:] == b'\xff\xd9')''')]
EDITS['codestream-if-not'] = [sub(BV, r'''            if not numberOfTilesExpected:
                numberOfTilesExpected = 0
(.*?)            numberOfTilesExpected = min\(numberOfTilesExpected, 65535\)
''', '''            numberOfTilesExpected = min(numberOfTilesExpected or 0, 65535)
''')]
EDITS['tiles-in-loop'] = [sub(BV, r'''                    try:
                        tilePartsPerTileFound\[
                            tileIndex\] = .*?                        break
''', '''                    if tilePartsPerTileFound.get(tileIndex) is None:
                        break
                    tilePartsPerTileFound[tileIndex] = 1 + tilePartsPerTileFound[tileIndex]
''', 1)]
EDITS['coc-expected'] = [sub(BV, r'''        if precincts == 1 and self.csiz < 257:
            lcocExpected = 10 \+ levels.*?            lcocExpected = 10
''', '''        lcocExpected = 9
        if precincts == 1:
            lcocExpected += levels + 1
        if self.csiz >= 257:
            lcocExpected += 1
''')]
EDITS['coc-format-flag'] = [sub(BV, r'''        if self.format in \['jph', 'jhc'\]:
(            # resetOnBoundaries[^\n]*
[^\n]*
)            mask = 0b11000000
[^\n]*
            onlyHT = mask & codeBlockStyle == 64
        else:
            onlyHT = False
''', '''        onlyHT = self.format in ('jph', 'jhc') and codeBlockStyle & 0xC0 == 0x40
''')]
EDITS['precinct-divmod'] = [sub(BV, r'''                ppx = precinctByte & 15
''', '''                ppy, ppx = precinctByte >> 4 & 0xF, precinctByte & 0xF
'''), sub(BV, r'''                ppy = \(precinctByte >> 4\) & 15
''', ''), (BV, 'precinctSizeX = 2 ** ppx', 'precinctSizeX = 1 << ppx')]
EDITS['precinct-valid'] = [sub(BV, r'''                if i != 0:
                    precinctSize(X|Y)IsValid = precinctSize\1 >= 2
                else:
                    precinctSize\1IsValid = True
''', r'''                precinctSize\1IsValid = i == 0 or pp\1 > 0
'''), (BV, lambda s: s.replace('ppX >', 'ppx >').replace('ppY >', 'ppy >'))]
EDITS['precinct-default-const'] = [sub(BV, r'''            for i in range\(levels \+ 1\):
                precinctSizeX = 2 \*\* 15
                self.addCharacteristic\("precinctSizeX", precinctSizeX\)
                precinctSizeY = 2 \*\* 15
                self.addCharacteristic\("precinctSizeY", precinctSizeY\)
''', '''            remaining = levels + 1
            while remaining > 0:
                for axis in "XY":
                    self.addCharacteristic("precinctSize" + axis, 32768)
                remaining -= 1
''')]
EDITS['ipl-decode'] = [method('_parse_ipl', '''    def _parse_ipl(self, lpl, offset):
        """Parse Iplt/Iplm parameters into a comma separated string of (hex) values."""
        end = len(self.boxContents)
        parts = []
        i = offset
        while i < min(lpl, end):
            first = i
            value = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
            i += 1
            result = value & 0x7F
            while value & 0x80 and i < end:
                value = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
                result = (result << 7) | (value & 0x7F)
                i += 1
            parts.append('{:0{}X}'.format(result, 2 * (i - first)))
        return ','.join(parts)
''')]
EDITS['marker-tuple'] = [method('_getMarkerSegment', '''    def _getMarkerSegment(self, offset):
        """Read marker segment that starts at offset."""
        marker = self.boxContents[offset:offset + 2]
        if marker in (b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92'):
            return marker, 0, self.boxContents[offset + 2:offset + 2], offset + 2
        length = bc.bytesToUShortInt(self.boxContents[offset + 2:offset + 4])
        contents = self.boxContents[offset + 2:offset + 2 + length]
        return marker, length, contents, -9999 if length == -9999 else offset + length + 2
''')]
EDITS['ratio-math'] = [method('_calculateCompressionRatio', '''    def _calculateCompressionRatio(
            self, noBytes, bPCDepthValues, height, width):
        """Compute compression ratio."""
        if noBytes == 0:
            return -9999
        return (sum(bPCDepthValues) / 8) * height * width / noBytes
''')]
EDITS['add-helpers-inline'] = [method('addCharacteristic', '''    def addCharacteristic(self, characteristic, charValue):
        """Add characteristic node to characteristics element tree."""
        node = ET.Element(characteristic)
        node.text = charValue
        self.characteristics.append(node)
''')]
EDITS['testfor-is-true'] = [method('testFor', '''    def testFor(self, testType, testResult):
        """Add testResult node to tests element tree."""
        if testResult is False or self.verboseFlag:
            self.tests.appendChildTagWithText(testType, testResult)
''')]
EDITS['dup-partial'] = [imp(BV, 'from functools import partial', 'import math'), method('validate_signatureBox', '''    def validate_signatureBox(self):
        """Signature box (ISO/IEC 15444-1 Section I.5.2)."""
        check = partial(self.testFor)
        check("boxLengthIsValid", len(self.boxContents) == 4)
        check("signatureIsValid", self.boxContents[0:4] == b'\\r\\n\\x87\\n')
''')]
EDITS['sig-startswith'] = [method('validate_signatureBox', '''    def validate_signatureBox(self):
        """Signature box (ISO/IEC 15444-1 Section I.5.2)."""
        contents, expected = self.boxContents, bytes.fromhex('0d0a870a')
        self.testFor("boxLengthIsValid", not len(contents) != len(expected))
        self.testFor("signatureIsValid", contents[:len(expected)] == expected)
''')]
EDITS['et-find-all'] = [function(ETP, 'findElementText', '''    def findElementText(self, match):
        """Text of first match; None if there is no match."""
        elt = self.find(match)
        return None if elt is None else elt.text
''', 'Element'), function(ETP, 'appendIfNotEmpty', '''    def appendIfNotEmpty(self, subelement):
        """Append sub-element, but only if subelement is not empty."""
        if len(subelement):
            self.append(subelement)
''', 'Element')]
EDITS['et-find-next'] = [function(ETP, 'findElementText', '''    def findElementText(self, match):
        """Text of first match; None if there is no match."""
        for elt in self.findall(match):
            return elt.text
        return None
''', 'Element')]
EDITS['human-isinstance'] = [sub(ETP, r'''                if textType == bytes:''', '''                if textType is bytes:'''),
                             sub(ETP, r'''                elif textType in numericTypes:''', '''                elif textType in (bool, int, float):''')]
EDITS['human-get2'] = [sub(ETP, r'''            try:
                # If tag is in enumerationsMap.*?                remappedValue = textIn

            # Step 2''', '''            parameterMap = remapTable.get(tag, {})
            remappedValue = parameterMap.get(textIn, textIn)

            # Step 2''')]
EDITS['human-in'] = [sub(ETP, r'''            try:
                # If tag is in enumerationsMap.*?                remappedValue = textIn

            # Step 2''', '''            remappedValue = textIn
            if tag in remapTable and textIn in remapTable[tag]:
                remappedValue = remapTable[tag][textIn]

            # Step 2''')]
EDITS['human-continue'] = [sub(ETP, r'''            if remappedValue is not None:
                # Data type
                textType = type\(remappedValue\)
.*?                elt.text = textOut
''', '''            if remappedValue is None:
                continue
            textType = type(remappedValue)
            if textType in numericTypes:
                elt.text = str(remappedValue)
            elif textType == bytes:
                elt.text = bc.bytesToText(remappedValue)
            else:
                elt.text = bc.removeControlCharacters(remappedValue)
''')]
EDITS['bc-text-else'] = [sub(BC, r'''    try:
        # Decode to utf-8.*?    return result
''', '''    try:
        string = str(bytestring, enc, errorMode)
    except BaseException:
        return ""
    return removeControlCharacters(string)
''')]
EDITS['bc-conv-else'] = [function(BC, '_doConv', '''def _doConv(bytestr, bOrder, formatCharacter):
    """Convert bytestr; return -9999 if it has the wrong size."""
    try:
        (result,) = struct.unpack("%s%s" % (bOrder, formatCharacter), bytestr)
    except Exception:
        return -9999
    else:
        return result
''')]
EDITS['bc-conv-calcsize'] = [function(BC, '_doConv', '''def _doConv(bytestr, bOrder, formatCharacter):
    """Convert bytestr; return -9999 if it has the wrong size."""
    formatStr = bOrder + formatCharacter
    if len(bytestr) != struct.calcsize(formatStr):
        return -9999
    return struct.unpack_from(formatStr, bytestr)[0]
''')]
EDITS['bc-hex'] = [function(BC, 'bytesToHex', '''def bytesToHex(bytestring):
    """Return hexadecimal ascii representation of bytestring."""
    return binascii.b2a_hex(bytestring)
''')]
EDITS['bc-integer'] = [function(BC, 'bytesToInteger', '''def bytesToInteger(bytestring):
    """Unpack byte string of any length to integer."""
    if not bytestring:
        return -9999
    return int.from_bytes(bytestring, byteorder="big")
''')]
EDITS['bc-ctrl-filter'] = [function(BC, 'removeControlCharacters', '''def removeControlCharacters(string):
    """Remove control characters from string."""
    return "".join(filter(lambda ch: ch in "\\t\\n\\r" or not unicodedata.category(ch).startswith("C"), string))
''')]
EDITS['bc-null-loop'] = [function(BC, 'removeNullTerminator', '''def removeNullTerminator(bytestring):
    """Remove null terminator from bytestring."""
    while bytestring.endswith(b'\\x00'):
        bytestring = bytestring[:-1]
    return bytestring
''')]
EDITS['sh-consecutive-zip'] = [function(SH, 'consecutive', '''def consecutive(lst):
    """Return True if items in lst are consecutive numbers."""
    return all(b - a == 1 for a, b in zip(lst, lst[1:]))
'''), function(SH, 'listOccurrencesAreContiguous', '''def listOccurrencesAreContiguous(lst, value):
    """Return True if all occurrences of value in lst are at contiguous positions."""
    return consecutive([i for i, item in enumerate(lst) if item == value])
''')]
EDITS['sh-contiguous-span'] = [function(SH, 'listOccurrencesAreContiguous', '''def listOccurrencesAreContiguous(lst, value):
    """Return True if all occurrences of value in lst are at contiguous positions."""
    n = lst.count(value)
    if n == 0:
        return True
    first = lst.index(value)
    return lst[first:first + n] == [value] * n
''')]
EDITS['one-with'] = [sub(JP, r'''    # Add status info
    statusInfo.appendChildTagWithText\("success", str\(success\)\)
    if not success:
        statusInfo.appendChildTagWithText\("failureMessage", failureMessage\)
''', '''    statusInfo.appendChildTagWithText("success", "True" if success else "False")
    if success is False:
        statusInfo.appendChildTagWithText("failureMessage", failureMessage)
''')]
EDITS['one-isvalid-element'] = [sub(JP, r'''    root.appendChildTagWithText\("isValid", str\(fileIsValid\)\)
[^\n]*
    root.findall\("\.//isValid"\)\[0\].set\("format", validationFormat\)
''', '''    isValidElement = ET.Element("isValid", {"format": validationFormat})
    isValidElement.text = str(fileIsValid)
    root.append(isValidElement)
''')]
EDITS['one-isvalid-find'] = [sub(JP, r'''    root.findall\("\.//isValid"\)\[0\].set\("format", validationFormat\)
''', '''    root.find("isValid").attrib["format"] = validationFormat
''')]
EDITS['one-messages'] = [sub(JP, r'''        if isinstance\(ex, MemoryError\):.*?                             "an issue at https://github.com/openpreserve/jpylyzer/issues"

        tests''', '''        report = ", please report to developers by creating an issue at https://github.com/openpreserve/jpylyzer/issues"
        for kind, text in ((MemoryError, "memory error (file size too large)"),
                           (OSError, "I/O error (cannot open file)"),
                           (RuntimeError, "runtime error" + report)):
            if isinstance(ex, kind):
                failureMessage = text
                break
        else:
            failureMessage = "unknown error" + report

        tests''')]
EDITS['one-kwargs'] = [sub(JP, r'''        bvOptions = \{\}.*?        bvOptions\['packetmarkersFlag'\] = packetmarkersFlag
''', '''        bvOptions = dict(validationFormat=validationFormat, verboseFlag=verboseFlag,
                         nullxmlFlag=nullxmlFlag, packetmarkersFlag=packetmarkersFlag)
''')]
EDITS['one-split'] = [sub(JP, r'''    fileName = os.path.basename\(path\)
''', '''    fileName = os.path.split(path)[1]
''')]
EDITS['find-continue'] = [sub(JP, r'''    results = glob.glob\(searchpattern\)
    for f in results:
        if os.path.isfile\(f\):
            EXISTING_FILES.append\(f\)
''', '''    for match in glob.glob(searchpattern):
        if not os.path.isfile(match):
            continue
        EXISTING_FILES.append(match)
''')]
EDITS['find-extend'] = [sub(JP, r'''    results = glob.glob\(searchpattern\)
    for f in results:
        if os.path.isfile\(f\):
            EXISTING_FILES.append\(f\)
''', '''    EXISTING_FILES.extend(filter(os.path.isfile, glob.glob(searchpattern)))
'''), sub(JP, r'''        for filename in filenames:
            thisFile = os.path.join\(dirname, filename\)
            EXISTING_FILES.append\(thisFile\)
''', '''        EXISTING_FILES.extend(os.path.join(dirname, filename) for filename in filenames)
''')]
EDITS['write-partition'] = [sub(JP, r'''        # Steps to get rid of xml declaration:.*?        codec.write\(xmlOut\)
    else:
        codec.write\(xmlOut\)
''', '''        # Strip XML declaration (first line)
        xmlOut = xmlPretty.split("\\n", 1)[1]

    codec.write(xmlOut)
''')]
EDITS['write-partition2'] = [sub(JP, r'''        # Steps to get rid of xml declaration:.*?        xmlOut = "\\n".join\(xmlAsList\)
''', '''        _, _, xmlOut = xmlPretty.partition("\\n")
''')]
EDITS['head-join'] = [sub(JP, r'''    xmlHead = "<\?xml.*?    out.write\(xmlHead\)
''', '''    out.write("<?xml version='1.0' encoding='UTF-8'?>\\n")
    out.write(f'<jpylyzer xmlns="{nsString}" xmlns:xsi="{XSI_NS_STRING}" xsi:schemaLocation="{locSchemaString}">\\n')
''')]
EDITS['main-formats'] = [sub(JP, r'''config.VALIDATION_FORMAT not in \['jp2', 'jph', 'j2c', 'jhc'\]''', '''not config.VALIDATION_FORMAT in ('j2c', 'jhc', 'jp2', 'jph')''')]
EDITS['files-generator'] = [sub(JP, r'''    for path in EXISTING_FILES:

        # Analyse file
        xmlElement = checkOneFile\(path,''', '''    def analyse(path):
        return checkOneFile(path,'''), sub(JP, r'''                                  config.MIX_FLAG\)

        # Write output to stdout
        writeElement\(xmlElement, out\)
''', '''                                  config.MIX_FLAG)

    for report in map(analyse, EXISTING_FILES):
        writeElement(report, out)
''')]
EDITS['files-generator2'] = [sub(JP, r'''    for path in EXISTING_FILES:

        # Analyse file
        xmlElement = checkOneFile\(path,''', '''    for i in range(len(EXISTING_FILES)):
        xmlElement = checkOneFile(EXISTING_FILES[i],''')]
EDITS['remap-comprehension'] = [sub(JP, r'''    enumerationsMap\['codingBypass'\] = yesNoMap
.*?    enumerationsMap\['segmentationSymbols'\] = yesNoMap
''', '''    enumerationsMap.update({tag: yesNoMap for tag in (
        'codingBypass', 'resetOnBoundaries', 'termOnEachPass', 'vertCausalContext',
        'predTermination', 'segmentationSymbols')})
'''), sub(JP, r'''    orderMap = \{\}
.*?    orderMap\[4\] = "CPRL"
''', '''    orderMap = dict(enumerate(("LRCP", "RLCP", "RPCL", "PCRL", "CPRL")))
''')]
EDITS['comp-effects']=[sub(BV, r'''            for _ in range\(nE\):
                # Get bytes for this entry.*?                offset \+= bytesPadded
''', '''            def report(start):
                self.addCharacteristic("cP", bc.bytesToInteger(self.boxContents[start:start + bytesPadded]))

            [report(offset + k * bytesPadded) for k in range(nE)]
''')]
EDITS['map-effects']=[sub(BV, r'''            for _ in range\(nE\):
                # Get bytes for this entry.*?                offset \+= bytesPadded
''', '''            def report(k):
                start = offset + k * bytesPadded
                self.addCharacteristic("cP", bc.bytesToInteger(self.boxContents[start:start + bytesPadded]))

            list(map(report, range(nE)))
''')]
EDITS['genexp-for']=[sub(BV, r'''        for _ in range\(int\(numberOfCompatibilityFields\)\):
            cL = self.boxContents\[offset:offset \+ 4\]
''', '''        for cL in (self.boxContents[k:k + 4] for k in range(8, 8 + 4 * int(numberOfCompatibilityFields), 4)):
''')]
EDITS['sub-comp']=[sub(BV, r'''            for i in range\(len\(tagSignatureElements\)\):
                tagSignatures.append\(tagSignatureElements\[i\].text\)
''', '''            add = tagSignatures.append
            for text in map(lambda e: e.text, tagSignatureElements):
                add(text)
''')]
EDITS['next-iter']=[sub(BV, r'''        vRcN = bc.bytesToUShortInt\(self.boxContents\[0:2\]\)
''', '''        fields = iter([bc.bytesToUShortInt(self.boxContents[k:k + 2]) for k in range(0, 8, 2)])
        vRcN = next(fields)
'''),sub(BV,r'vRcD = bc.bytesToUShortInt\(self.boxContents\[2:4\]\)','vRcD = next(fields)'),sub(BV,r'hRcN = bc.bytesToUShortInt\(self.boxContents\[4:6\]\)','hRcN = next(fields)'),sub(BV,r'hRcD = bc.bytesToUShortInt\(self.boxContents\[6:8\]\)','hRcD = next(fields)')]
EDITS['files-listcomp']=[sub(JP, r'''    for path in EXISTING_FILES:

        # Analyse file
        xmlElement = checkOneFile\(path,''', '''    def process(path):
        xmlElement = checkOneFile(path,'''), sub(JP, r'''
    # Close </results> element
''', '''
    for _ in map(process, EXISTING_FILES):
        pass

''')]
EDITS['children-comp']=[sub(BV, r'''            for channel in alphaChannels:
                self.testFor\("cAssocAlphaChannelIsZero", channel\[1\] == 0\)
''','''            results = [self.testFor("cAssocAlphaChannelIsZero", channel[1] == 0) for channel in alphaChannels]
            del results
''')]
