"""Hand-written realistic bugs in the validators; run with tools/handdetect.py."""
BV, JP, ETP, BC, SH, MX = 'boxvalidator.py', 'jpylyzer.py', 'etpatch.py', 'byteconv.py', 'shared.py', 'mix.py'
EDITS = {}
EXPECT = {}


def bug(name, prop, *edits):
    EDITS[name] = list(edits)
    EXPECT[name] = prop


bug('xl-offset', 'C14', (BV, "            contentsStartOffset = 16\n", "            contentsStartOffset = 16 if byteStart else 8\n"))
bug('zero-box-extra', 'C14', (BV, "            boxLengthValue = noBytes - byteStart\n", "            boxLengthValue = len(self.boxContents) - byteStart if byteStart else noBytes\n            if boxLengthValue > 65536:\n                boxLengthValue = 65536\n"))
bug('marker-eph-len', 'C14', (BV, "[b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92']", "[b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92', b'\\xff\\x30']"))
bug('ratio-floor', 'C13', (BV, "        bytesPerPixel = bitsPerPixel / 8\n", "        bytesPerPixel = bitsPerPixel // 8\n"))
bug('ipl-pad', 'C13', (BV, "iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)", "iplt += ('{:0' + str(min(2 * ipl_i_len, 8)) + 'X},').format(iplt_i)"))
bug('ipl-shift', 'C13', (BV, "                iplt_i = iplt_i << 7\n", "                iplt_i = (iplt_i << 7) & 0xFFFFFFFF\n"))
bug('ftyp-trunc', 'C04', (BV, "numberOfCompatibilityFields == int(\n            numberOfCompatibilityFields)", "round(numberOfCompatibilityFields * 2) % 2 == 0"))
bug('cl-last', 'C04', (BV, "                b'\\x6a\\x70\\x68\\x20' in cLList)", "                b'\\x6a\\x70\\x68\\x20' in cLList[-8:])"))
bug('jph-unkc', 'C05', (BV, "            if unkC == 0:\n", "            if not unkC:\n"))
bug('bpcc-sign', 'C05', (BV, "        if sign == 1 and depth == 128:\n", "        if depth == 128:\n"))
bug('bpcc-findall', 'C05', (BV, "'channelDefinitionBox/cTyp')\n", "'.//cTyp')[:8]\n"))
bug('bpc-depth', 'C04', (BV, "        bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38\n", "        bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38 or bPC & 127 == 127\n"))
bug('enumcs-slice', 'C04', (BV, "enumCS = bc.bytesToUInt(self.boxContents[3:length])", "enumCS = bc.bytesToUInt(self.boxContents[3:7])"))
bug('colprims-range', 'C04', (BV, "10, 11, 12, 22])", "10, 11, 12, 22, 23])"))
bug('vidfrng', 'C10', (BV, "vidFRng = self._getBitValue(vidFRngByte, 1)", "vidFRng = int(vidFRngByte != 0)"))
bug('icc-version', 'C12', (BV, "profileMinorRevision = profileMinorRevisionByte >> 4", "profileMinorRevision = (profileMinorRevisionByte >> 4) & 7"))
bug('icc-month', 'C12', (BV, '"%d/%02d/%02d" % (year, month, day)', '"%04d/%02d/%02d" % (year, month, day)'))
bug('icc-tags', 'C12', (BV, "tagCount = min(tagCount, 4096)", "tagCount = min(tagCount, 409)"))
bug('icc-tagdup', 'C12', (BV, "            i = tagSignatures.index(b'desc')\n", "            i = len(tagSignatures) - 1 - tagSignatures[::-1].index(b'desc')\n"))
bug('icc-desc', 'C12', (BV, "description = descTag[12:12 + descriptionLength - 1]", "description = descTag[12:12 + descriptionLength].rstrip(b'\\x00')"))
bug('icc-illum', 'C12', (BV, "            bc.bytesToUInt(self.boxContents[76:80]) / 65536, 4)", "            bc.bytesToUInt(self.boxContents[76:80]) / 65536, 3)"))
bug('icc-a2b0', 'C12', (BV, "b'A2B0' not in tagSignatures", "b'A2B0' not in tagSignatures[:32]"))
bug('icc-intent', 'C12', (BV, "bc.bytesToUShortInt(self.boxContents[66:68])", "bc.bytesToUInt(self.boxContents[64:68])"))
bug('pal-pad', 'C10', (BV, "bytesPadded = int(bDepthPadded / 8)", "bytesPadded = min(int(bDepthPadded / 8), 4)"))
bug('pal-offset', 'C10', (BV, "offset = nPC + 3 + i * (nE * bytesPadded)", "offset = nPC + 3 + i * nE * max(bytesPadded, 1) if nPC < 4 else nPC + 3 + i * nE"))
bug('short-uchar', 'C15', (BC, "def bytesToUnsignedChar", "def bytesToUnsignedChar0(bytes):\n    return bytesToUnsignedChar(bytes) if bytes else 0\n\n\ndef bytesToUnsignedChar"), (BV, "unkC = bc.bytesToUnsignedChar(self.boxContents[12:13])", "unkC = bc.bytesToUnsignedChar0(self.boxContents[12:13])"))
bug('short-ipr', 'C15', (BV, 'self.testFor("iPRIsValid", 0 <= iPR <= 1)', 'self.testFor("iPRIsValid", iPR <= 1)'))
bug('tests-any-none', 'C01', (BV, '            if testResult is False:\n', '            if testResult == False and testResult is not None and testType != "precIsValid":\n'))
bug('contig-first', 'C05', (SH, 'def listOccurrencesAreContiguous(', 'def listOccurrencesAreContiguous0('), (SH, 'def listOccurrencesAreContiguous0(', 'def listOccurrencesAreContiguous(lst, value):\n    """Contiguity."""\n    if value not in lst:\n        return True\n    i = lst.index(value)\n    n = lst.count(value)\n    return lst[i + n - 1] == value if i + n <= len(lst) else False\n\n\ndef listOccurrencesAreContiguous0('))

# second batch
bug('cmp-range', 'C04', (BV, 'self.testFor("cMPIsValid", 0 <= cMP <= 16384)', 'self.testFor("cMPIsValid", 0 <= cMP < 16384)'))
bug('pcol-mtyp', 'C04', (BV, '            if mTyp == 0:\n                pColIsValid = pCol == 0\n', '            if mTyp != 1:\n                pColIsValid = pCol == 0\n'))
bug('cmap-round', 'C10', (BV, 'numberOfChannels = int(len(self.boxContents) / 4)', 'numberOfChannels = int(round(len(self.boxContents) / 4))'))
bug('cdef-last-alpha', 'C04', (BV, '            for channel in alphaChannels:\n', '            for channel in alphaChannels[:4]:\n'))
bug('cdef-alpha2', 'C04', (BV, 'if cTyp in [1, 2]:\n', 'if cTyp in [1, 2] and [cTyp, cAssoc] not in alphaChannels:\n'))
bug('res-exp', 'C13', (BV, 'vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))', 'vRescInPixelsPerMeter = (vRcN // vRcD) * (10 ** (vRcE))'))
bug('res-hexp', 'C13', (BV, 'hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))', 'hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (vRdE))'))
bug('res-inch', 'C13', (BV, 'hRescInPixelsPerInch = hRescInPixelsPerMeter * 25.4e-3', 'hRescInPixelsPerInch = round(hRescInPixelsPerMeter, 2) * 25.4e-3'))
bug('res-unsigned', 'C13', (BV, 'vRdE = bc.bytesToSignedChar(self.boxContents[8:9])', 'vRdE = bc.bytesToUnsignedChar(self.boxContents[8:9])\n        if vRdE > 128:\n            vRdE -= 256'))
bug('rsiz-cap', 'C09', (BV, '            if (rsiz >> 14) & 15 == 1:\n', '            if (rsiz >> 14) & 1 == 1:\n'))
bug('rsiz-valid', 'C07', (BV, '(rsiz >> 12) & 15 == 0)', '(rsiz >> 12) & 7 == 0)'))
bug('tiles-none', 'C09', (BV, '            if not numberOfTilesExpected:\n                numberOfTilesExpected = 0', '            if not numberOfTilesExpected or numberOfTilesExpected > 65535:\n                numberOfTilesExpected = 0'))
bug('ext-caps', 'C13', (BV, 'extendendCapabilities = (rsiz >> 14) & 15', 'extendendCapabilities = (rsiz >> 14) & 1'))
