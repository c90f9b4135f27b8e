"""Reference rules for the validator, one short method per box / marker segment.

This file is a specification.  It is parsed by the analyser in /verif/sa and
summarised with the same value-numbering engine as the code under analysis; it
is never imported or run.  -9999 is the tool's documented value for a field
that could not be read.
"""
import struct
import math
import uuid
import binascii
import unicodedata
import sys
import xml.etree.ElementTree as ET

BAD = -9999


# ---------------------------------------------------------------- primitives
def unpack(fmt, b):
    try:
        return struct.unpack(">" + fmt, b)[0]
    except BaseException:
        return BAD


def anyint(b):
    try:
        return int(binascii.hexlify(b), 16)
    except BaseException:
        return BAD


def printable(s):
    return "".join(ch for ch in s if unicodedata.category(ch)[0] != "C" or ch in ["\t", "\n", "\r"])


def astext(b):
    try:
        return printable(b.decode("utf-8", "strict"))
    except BaseException:
        return ""


def first(e, path):
    x = e.find(path)
    return None if x is None else x.text


def every(e, path):
    return [x.text for x in e.findall(path)]


def everyof(e, path):
    return [] if e is None else every(e, path)


def contiguous(types, t):
    pos = [i for i in range(len(types)) if types[i] == t]
    for i in range(1, len(pos)):
        if pos[i] - pos[i - 1] != 1:
            return False
    return True


def ratio(noBytes, depths, height, width):
    bits = 0
    for i in range(len(depths)):
        bits += depths[i]
    size = bits / 8 * height * width
    return round(size / noBytes if noBytes != 0 else BAD, 2)


KINDS = {
    b'jp2i': "intellectualPropertyBox", b'xml ': "xmlBox", b'uuid': "uuidBox", b'uinf': "uuidInfoBox",
    b'jP  ': "signatureBox", b'ftyp': "fileTypeBox", b'jp2h': "jp2HeaderBox", b'ihdr': "imageHeaderBox",
    b'bpcc': "bitsPerComponentBox", b'colr': "colourSpecificationBox", b'pclr': "paletteBox",
    b'cmap': "componentMappingBox", b'cdef': "channelDefinitionBox", b'res ': "resolutionBox",
    b'jp2c': "contiguousCodestreamBox", b'resc': "captureResolutionBox", b'resd': "displayResolutionBox",
    b'ulst': "uuidListBox", b'url ': "urlBox",
    b'\xff\x50': "cap", b'\xff\x51': "siz", b'\xff\x56': "prf", b'\xff\x52': "cod", b'\xff\x5c': "qcd",
    b'\xff\x64': "com", b'\xff\x53': "coc", b'\xff\x5e': "rgn", b'\xff\x5d': "qcc", b'\xff\x5f': "poc",
    b'\xff\x55': "tlm", b'\xff\x57': "plm", b'\xff\x58': "plt", b'\xff\x59': "cpf", b'\xff\x60': "ppm",
    b'\xff\x61': "ppt", b'\xff\x63': "crg", b'\xff\x90': "tilePart", 'icc': 'icc', 'startOfTile': 'sot'}

# main-header and tile-part-header segments: those that need the component
# count, and those whose properties only appear on request
NEEDS_CSIZ = [b'\xff\x53', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f', b'\xff\x63']
PACKET = [b'\xff\x57', b'\xff\x60', b'\xff\x58', b'\xff\x61']
MAIN = [b'\xff\x52', b'\xff\x53', b'\xff\x5c', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f', b'\xff\x63', b'\xff\x64',
        b'\xff\x50', b'\xff\x56', b'\xff\x59', b'\xff\x55', b'\xff\x57', b'\xff\x60']
TILE = [b'\xff\x52', b'\xff\x53', b'\xff\x5c', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f', b'\xff\x64', b'\xff\x58',
        b'\xff\x61']


class Ref:
    def __init__(self, options, bType, boxContents, startOffset=None, components=None):
        self.options = options
        self.format = options['validationFormat']
        self.verbose = options['verboseFlag']
        self.nullxml = options['nullxmlFlag']
        self.packets = options['packetmarkersFlag']
        self.ht = self.format in ['jph', 'jhc']
        self.key = bType
        self.b = boxContents
        self.startOffset = startOffset
        self.csiz = components
        self.returnOffset = None
        self.isValid = None
        self.tilePartLength = None
        if bType in KINDS:
            self.boxType = KINDS[bType]
        elif bType in ["JP2", "contiguousCodestreamBox"]:
            self.boxType = bType
        else:
            self.boxType = "unknownBox"
        if bType in ["JP2", "contiguousCodestreamBox"]:
            self.characteristics = ET.Element("properties")
            self.tests = ET.Element("tests")
            self.warnings = ET.Element("warnings")
        else:
            self.characteristics = ET.Element(self.boxType)
            self.tests = ET.Element(self.boxType)
            self.warnings = ET.Element(self.boxType)

    def validate(self):
        if self.boxType == "intellectualPropertyBox":
            self.note("ignoring 'intellectualPropertyBox' (validator function not yet implemented)")
        else:
            getattr(self, "r_" + self.boxType)()
        return self

    # ------------------------------------------------------------ reporting
    def t(self, name, ok):
        if not self.verbose:
            if ok is False:
                ET.SubElement(self.tests, name).text = ok
        else:
            ET.SubElement(self.tests, name).text = ok

    def p(self, name, value):
        ET.SubElement(self.characteristics, name).text = value

    def note(self, msg):
        sys.stderr.write("User warning: " + msg + "\n")

    def u1(self, o):
        return unpack("B", self.b[o:o + 1])

    def u2(self, o):
        return unpack("H", self.b[o:o + 2])

    def u4(self, o):
        return unpack("I", self.b[o:o + 4])

    def pt(self, name, value, ok):
        self.p(name, value)
        self.t(name + "IsValid", ok)

    def adopt(self, r, props=True):
        if len(r.tests) != 0:
            self.tests.append(r.tests)
        if props:
            self.characteristics.append(r.characteristics)
        if len(r.warnings) != 0:
            self.warnings.append(r.warnings)

    def header(self, known, marker, contents, csiz):
        """one marker segment of a main or tile-part header"""
        for m in known:
            if marker == m:
                if m in NEEDS_CSIZ:
                    r = Ref(self.options, marker, contents, components=csiz).validate()
                else:
                    r = Ref(self.options, marker, contents).validate()
                if m in PACKET:
                    self.adopt(r, self.packets)
                else:
                    self.adopt(r)

    def verdict(self):
        for e in self.tests.iter():
            if e.text is False:
                return False
        return True

    # ------------------------------------------------------------ framing
    def boxes(self):
        """sub-boxes back to back until the data ends or a length is unreadable"""
        types = []
        n = len(self.b)
        pos = 0
        length = 10
        while pos < n and length not in [0, BAD]:
            length = self.u4(pos)
            kind = self.b[pos + 4:pos + 8].ljust(4, b'\x00')
            head = 8
            if length == 1:
                length = unpack("Q", self.b[pos + 8:pos + 16])
                head = 16
            if length == 0:
                length = n - pos
            end = pos + length
            self.adopt(Ref(self.options, kind, self.b[pos + head:end]).validate())
            types.append(kind)
            pos = end
        return types

    def segment(self, o):
        marker = self.b[o:o + 2]
        if marker in [b'\xff\x4f', b'\xff\x93', b'\xff\xd9', b'\xff\x92']:
            length = 0
        else:
            length = self.u2(o + 2)
        return marker, self.b[o + 2:o + 2 + length], (BAD if length == BAD else o + length + 2)

    # ------------------------------------------------------------ boxes
    def r_unknownBox(self):
        self.p("boxType", self.key)
        msg = "ignoring unknown box '" + astext(self.key) + "'"
        ET.SubElement(self.warnings, "warning").text = msg
        self.note(msg)

    def r_signatureBox(self):
        self.t("boxLengthIsValid", len(self.b) == 4)
        self.t("signatureIsValid", self.b[0:4] == b'\r\n\x87\n')

    def r_fileTypeBox(self):
        n = (len(self.b) - 8) / 4
        self.t("boxLengthIsValid", n == int(n))
        br = self.b[0:4]
        self.p("br", br)
        minV = self.u4(4)
        self.p("minV", minV)
        cl = []
        for i in range(int(n)):
            c = self.b[8 + 4 * i:12 + 4 * i]
            self.p("cL", c)
            cl.append(c)
        if self.format == 'jp2':
            self.t("brandIsValid", br == b'jp2 ')
        elif self.format == 'jph':
            self.t("brandIsValid", br == b'jph ')
        self.t("minorVersionIsValid", minV == 0)
        if self.format == 'jp2':
            self.t("compatibilityListIsValid", b'jp2 ' in cl)
        elif self.format == 'jph':
            self.t("compatibilityListIsValid", b'jph ' in cl)

    def r_jp2HeaderBox(self):
        s = self.boxes()
        self.t("containsImageHeaderBox", b'ihdr' in s)
        if self.format == 'jp2':
            self.t("containsColourSpecificationBox", b'colr' in s)
        elif self.format == 'jph':
            if first(self.characteristics, 'imageHeaderBox/unkC') == 0:
                self.t("containsColourSpecificationBox", b'colr' in s)
            if b'colr' not in s:
                self.t("noZeroCTypesIfNoColourBox", 0 not in every(self.characteristics, 'channelDefinitionBox/cTyp'))
        sign = first(self.characteristics, 'imageHeaderBox/bPCSign')
        depth = first(self.characteristics, 'imageHeaderBox/bPCDepth')
        if sign == 1 and depth == 128:
            self.t("containsBitsPerComponentBox", b'bpcc' in s)
        self.t("firstJP2HeaderBoxIsImageHeaderBox", len(s) > 0 and s[0] == b'ihdr')
        self.t("noMoreThanOneImageHeaderBox", s.count(b'ihdr') <= 1)
        self.t("noMoreThanOneBitsPerComponentBox", s.count(b'bpcc') <= 1)
        self.t("noMoreThanOnePaletteBox", s.count(b'pclr') <= 1)
        self.t("noMoreThanOneComponentMappingBox", s.count(b'cmap') <= 1)
        self.t("noMoreThanOneChannelDefinitionBox", s.count(b'cdef') <= 1)
        self.t("noMoreThanOneResolutionBox", s.count(b'res ') <= 1)
        self.t("colourSpecificationBoxesAreContiguous", contiguous(s, b'colr'))
        self.t("paletteAndComponentMappingBoxesOnlyTogether", not (
            (b'pclr' in s and b'cmap' not in s) or (b'cmap' in s and b'pclr' not in s)))

    def r_imageHeaderBox(self):
        self.t("boxLengthIsValid", len(self.b) == 14)
        height = self.u4(0)
        self.pt("height", height, 1 <= height <= 2 ** 32 - 1)
        width = self.u4(4)
        self.pt("width", width, 1 <= width <= 2 ** 32 - 1)
        nC = self.u2(8)
        self.pt("nC", nC, 1 <= nC <= 16384)
        bpc = self.u1(10)
        self.p("bPCSign", (bpc >> 7) & 1)
        self.p("bPCDepth", (bpc & 127) + 1)
        self.t("bPCIsValid", 1 <= (bpc & 127) + 1 <= 38 or bpc == 255)
        c = self.u1(11)
        self.pt("c", c, c == 7)
        unkC = self.u1(12)
        self.pt("unkC", unkC, 0 <= unkC <= 1)
        iPR = self.u1(13)
        self.pt("iPR", iPR, 0 <= iPR <= 1)

    def r_bitsPerComponentBox(self):
        for i in range(len(self.b)):
            v = self.u1(i)
            self.p("bPCSign", (v >> 7) & 1)
            self.p("bPCDepth", (v & 127) + 1)
            self.t("bPCIsValid", 1 <= (v & 127) + 1 <= 38)

    def r_colourSpecificationBox(self):
        n = len(self.b)
        meth = self.u1(0)
        self.p("meth", meth)
        if self.format == 'jp2':
            self.t("methIsValid", meth in [1, 2])
        elif self.format == 'jph':
            self.t("methIsValid", meth in [1, 2, 3, 5])
        prec = self.u1(1)
        self.pt("prec", prec, prec == 0)
        approx = self.u1(2)
        self.pt("approx", approx, approx == 0)
        if meth == 1:
            cs = unpack("I", self.b[3:n])
            self.pt("enumCS", cs, cs in [16, 17, 18])
        elif meth == 2 or meth == 3:
            profile = self.b[3:n]
            icc = Ref(self.options, 'icc', profile).validate()
            self.characteristics.append(icc.characteristics)
            if len(icc.warnings) != 0:
                self.warnings.append(icc.warnings)
            if meth == 2:
                self.t("iccSizeIsValid", first(icc.characteristics, 'profileSize') == len(profile))
                self.t("iccPermittedProfileClass", first(icc.characteristics, 'profileClass') in [b'scnr', b'mntr'])
                self.t("iccNoLUTBasedProfile", b'A2B0' not in every(icc.characteristics, "tag"))
        elif meth == 5:
            prims = self.u2(3)
            self.p("colPrims", prims)
            transf = self.u2(5)
            self.p("transfC", transf)
            mat = self.u2(7)
            self.p("matCoeffs", mat)
            if self.format == 'jph':
                self.t("colPrimsIsValid", prims in [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22])
                self.t("transfCIsValid", transf in [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18])
                self.t("matCoeffsIsValid", mat in [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14])
            self.p("vidFRng", (self.u1(9) >> 7) & 1)

    def r_icc(self):
        b = self.b
        self.p("profileSize", self.u4(0))
        self.p("preferredCMMType", b[4:8])
        minor = self.u1(9)
        self.p("profileVersion", "%s.%s.%s" % (self.u1(8), minor >> 4, minor & 15))
        self.p("profileClass", b[12:16])
        self.p("colourSpace", b[16:20])
        self.p("profileConnectionSpace", b[20:24])
        date = "%d/%02d/%02d" % (self.u2(24), self.u1(27), self.u1(29))
        time = "%02d:%02d:%02d" % (self.u1(31), self.u1(33), self.u1(35))
        self.p("dateTimeString", "%s, %s" % (date, time))
        self.p("profileSignature", b[36:40])
        self.p("primaryPlatform", b[40:44])
        flags = self.u1(44)
        self.p("embeddedProfile", (flags >> 7) & 1)
        self.p("profileCannotBeUsedIndependently", (flags >> 6) & 1)
        self.p("deviceManufacturer", b[48:52])
        self.p("deviceModel", b[52:56])
        attrs = self.u1(56)
        self.p("transparency", (attrs >> 7) & 1)
        self.p("glossiness", (attrs >> 6) & 1)
        self.p("polarity", (attrs >> 5) & 1)
        self.p("colour", (attrs >> 4) & 1)
        self.p("renderingIntent", self.u2(66))
        self.p("connectionSpaceIlluminantX", round(self.u4(68) / 65536, 4))
        self.p("connectionSpaceIlluminantY", round(self.u4(72) / 65536, 4))
        self.p("connectionSpaceIlluminantZ", round(self.u4(76) / 65536, 4))
        self.p("profileCreator", b[80:84])
        self.p("profileID", binascii.hexlify(b[84:100]))
        sigs = []
        offsets = []
        sizes = []
        for i in range(min(self.u4(128), 4096)):
            o = 132 + 12 * i
            self.p("tag", b[o:o + 4])
            sigs.append(b[o:o + 4])
            offsets.append(self.u4(o + 4))
            sizes.append(self.u4(o + 8))
        try:
            k = sigs.index(b'desc')
            tag = b[offsets[k]:offsets[k] + sizes[k]]
            description = tag[12:12 + unpack("I", tag[8:12]) - 1]
        except Exception:
            description = ""
        self.p("description", description)

    def r_paletteBox(self):
        nE = self.u2(0)
        self.pt("nE", nE, 1 <= nE <= 1024)
        nPC = self.u1(2)
        self.pt("nPC", nPC, 1 <= nPC <= 255)
        for i in range(nPC):
            v = self.u1(3 + i)
            depth = (v & 127) + 1
            self.p("bSign", (v >> 7) & 1)
            self.pt("bDepth", depth, 1 <= depth <= 38)
            size = int(math.ceil(depth / 8) * 8 / 8)
            o = nPC + 3 + i * (nE * size)
            for j in range(nE):
                self.p("cP", anyint(self.b[o + j * size:o + j * size + size]))

    def r_componentMappingBox(self):
        for i in range(int(len(self.b) / 4)):
            cMP = self.u2(4 * i)
            self.pt("cMP", cMP, 0 <= cMP <= 16384)
            mTyp = self.u1(4 * i + 2)
            self.pt("mTyp", mTyp, 0 <= mTyp <= 1)
            pCol = self.u1(4 * i + 3)
            self.pt("pCol", pCol, mTyp != 0 or pCol == 0)

    def r_channelDefinitionBox(self):
        n = self.u2(0)
        self.pt("n", n, 1 <= n <= 65535)
        self.t("boxLengthIsValid", len(self.b) - 2 == n * 6)
        alpha = []
        for i in range(n):
            o = 2 + 6 * i
            cN = self.u2(o)
            self.pt("cN", cN, 0 <= cN <= 65535)
            cTyp = self.u2(o + 2)
            self.p("cTyp", cTyp)
            if self.format == 'jp2':
                self.t("cTypIsValid", cTyp in [0, 1, 2, 65535])
            elif self.format == 'jph':
                self.t("cTypIsValid", cTyp in [0, 1, 2, 3, 65535])
            cAssoc = self.u2(o + 4)
            self.pt("cAssoc", cAssoc, 0 <= cAssoc <= 65535)
            if cTyp in [1, 2]:
                alpha.append([cTyp, cAssoc])
        if self.format == 'jph':
            self.t("noMoreThanOneAlphaChannel", len(alpha) <= 1)
            for a in alpha:
                self.t("cAssocAlphaChannelIsZero", a[1] == 0)

    def r_resolutionBox(self):
        s = self.boxes()
        self.t("containsCaptureOrDisplayResolutionBox", b'resc' in s or b'resd' in s)
        self.t("noMoreThanOneCaptureResolutionBox", s.count(b'resc') <= 1)
        self.t("noMoreThanOneDisplayResolutionBox", s.count(b'resd') <= 1)

    def resolution(self, c):
        self.t("boxLengthIsValid", len(self.b) == 10)
        vN = self.u2(0)
        self.pt("vR" + c + "N", vN, 1 <= vN <= 65535)
        vD = self.u2(2)
        self.pt("vR" + c + "D", vD, 1 <= vD <= 65535)
        hN = self.u2(4)
        self.pt("hR" + c + "N", hN, 1 <= hN <= 65535)
        hD = self.u2(6)
        self.pt("hR" + c + "D", hD, 1 <= hD <= 65535)
        vE = unpack("b", self.b[8:9])
        self.pt("vR" + c + "E", vE, -128 <= vE <= 127)
        hE = unpack("b", self.b[9:10])
        self.pt("hR" + c + "E", hE, -128 <= hE <= 127)
        v = vi = h = hi = BAD
        if vD != 0:
            v = (vN / vD) * (10 ** vE)
            vi = v * 25.4e-3
        if hD != 0:
            h = (hN / hD) * (10 ** hE)
            hi = h * 25.4e-3
        self.p("vRes" + c + "InPixelsPerMeter", round(v, 2))
        self.p("hRes" + c + "InPixelsPerMeter", round(h, 2))
        self.p("vRes" + c + "InPixelsPerInch", round(vi, 2))
        self.p("hRes" + c + "InPixelsPerInch", round(hi, 2))

    def r_captureResolutionBox(self):
        self.resolution("c")

    def r_displayResolutionBox(self):
        self.resolution("d")

    def xml(self, data):
        ok = False
        try:
            self.characteristics.append(ET.fromstring(data))
            ok = True
        except Exception:
            if self.nullxml:
                try:
                    self.characteristics.append(ET.fromstring(data.rstrip(b'\x00')))
                except Exception:
                    pass
        self.t("containsWellformedXML", ok)

    def r_xmlBox(self):
        self.xml(self.b)

    def r_uuidBox(self):
        n = len(self.b)
        self.t("boxLengthIsValid", n > 16)
        if n >= 16:
            ident = str(uuid.UUID(bytes=self.b[0:16]))
            if ident == "be7acfcb-97a9-42e8-9c71-999491e3afac":
                self.xml(self.b[16:n])
            else:
                self.p("uuid", ident)

    def r_uuidInfoBox(self):
        s = self.boxes()
        self.t("containsOneListBox", s.count(b'ulst') == 1)
        self.t("containsOneURLBox", s.count(b'url ') == 1)

    def r_uuidListBox(self):
        nU = self.u2(0)
        self.p("nU", nU)
        self.t("boxLengthIsValid", len(self.b) == nU * 16 + 2)
        for i in range(nU):
            if 2 + 16 * i + 16 > len(self.b):
                break
            self.p("uuid", str(uuid.UUID(bytes=self.b[2 + 16 * i:2 + 16 * i + 16])))

    def r_urlBox(self):
        version = self.u1(0)
        self.pt("version", version, version == 0)
        self.t("flagIsValid", self.b[1:4] == b'\x00\x00\x00')
        loc = self.b[4:len(self.b)]
        self.t("locHasNullTerminator", loc.endswith(b'\x00'))
        loc = loc.rstrip(b'\x00')
        try:
            loc.decode("utf-8", "strict")
            self.t("locIsUTF8", True)
        except UnicodeDecodeError:
            self.t("locIsUTF8", False)
        self.p("loc", loc)

    # ------------------------------------------------------------ whole file
    def r_JP2(self):
        s = self.boxes()
        self.t("containsSignatureBox", b'jP  ' in s)
        self.t("containsFileTypeBox", b'ftyp' in s)
        self.t("containsJP2HeaderBox", b'jp2h' in s)
        self.t("containsContiguousCodestreamBox", b'jp2c' in s)
        if first(self.characteristics, 'jp2HeaderBox/imageHeaderBox/iPR') == 1:
            self.t("containsIntellectualPropertyBox", b'jp2i' in s)
        self.t("firstBoxIsSignatureBox", len(s) > 0 and s[0] == b'jP  ')
        self.t("secondBoxIsFileTypeBox", len(s) > 1 and s[1] == b'ftyp')
        if b'jp2h' in s and b'jp2c' in s:
            located = s.index(b'jp2c') > s.index(b'jp2h') > 1
        else:
            located = False
        self.t("locationJP2HeaderBoxIsValid", located)
        self.t("noMoreThanOneSignatureBox", s.count(b'jP  ') <= 1)
        self.t("noMoreThanOneFileTypeBox", s.count(b'ftyp') <= 1)
        self.t("noMoreThanOneJP2HeaderBox", s.count(b'jp2h') <= 1)
        ih = self.characteristics.find('jp2HeaderBox/imageHeaderBox')
        siz = self.characteristics.find('contiguousCodestreamBox/siz')
        if ih is not None and siz is not None:
            height = first(ih, 'height')
            width = first(ih, 'width')
            nC = first(ih, 'nC')
            self.t("heightConsistentWithSIZ", height == first(siz, 'ysiz') - first(siz, 'yOsiz'))
            self.t("widthConsistentWithSIZ", width == first(siz, 'xsiz') - first(siz, 'xOsiz'))
            self.t("nCConsistentWithSIZ", nC == first(siz, 'csiz'))
            sign = first(ih, 'bPCSign')
            depth = first(ih, 'bPCDepth')
            if sign == 1 and depth == 128:
                bpcc = self.characteristics.find('jp2HeaderBox/bitsPerComponentBox')
                signs = everyof(bpcc, 'bPCSign')
                depths = everyof(bpcc, 'bPCDepth')
            else:
                signs = [sign for _ in range(nC)]
                depths = [depth for _ in range(nC)]
            self.t("bPCSignConsistentWithSIZ", signs == everyof(siz, 'ssizSign'))
            self.t("bPCDepthConsistentWithSIZ", depths == everyof(siz, 'ssizDepth'))
            if self.format in ['jp2', 'jph']:
                self.p("compressionRatio", ratio(len(self.b), depths, height, width))
        self.isValid = self.verdict()

    # ------------------------------------------------------------ codestream
    def r_contiguousCodestreamBox(self):
        n = len(self.b)
        plm = 0
        ppm = 0
        marker, contents, o = self.segment(0)
        self.t("codestreamStartsWithSOCMarker", marker == b'\xff\x4f')
        marker, contents, nxt = self.segment(o)
        siz = marker == b'\xff\x51'
        self.t("foundSIZMarker", siz)
        if siz:
            rs = Ref(self.options, marker, contents).validate()
            self.adopt(rs)
            csiz = first(rs.characteristics, 'csiz')
            o = nxt
            cod = False
            qcd = False
            cap = False
            while marker != b'\xff\x90' and nxt != BAD:
                marker, contents, nxt = self.segment(o)
                if marker == b'\xff\x52':
                    cod = True
                if marker == b'\xff\x5c':
                    qcd = True
                if marker == b'\xff\x50':
                    cap = True
                if marker == b'\xff\x57':
                    plm += 1
                if marker == b'\xff\x60':
                    ppm += 1
                self.header(MAIN, marker, contents, csiz)
                if marker != b'\xff\x90':
                    o = nxt
            self.p("ppmCount", ppm)
            self.p("plmCount", plm)
            self.t("foundCODMarker", cod)
            self.t("foundQCDMarker", qcd)
            if (first(self.characteristics, 'siz/rsiz') >> 14) & 15 == 1:
                self.t("foundCAPMarker", cap)
            expected = min(first(self.characteristics, 'siz/numberOfTiles') or 0, 65535)
            indices = []
            partsExpected = {}
            partsFound = {}
            for i in range(expected):
                partsFound[i] = 0
            tp = ET.Element('tileParts')
            tt = ET.Element('tileParts')
            tw = ET.Element('tileParts')
            while marker == b'\xff\x90':
                marker = self.b[o:o + 2]
                if marker == b'\xff\x90':
                    r = Ref(self.options, marker, self.b, startOffset=o, components=csiz).validate()
                    if len(r.tests) != 0:
                        tt.append(r.tests)
                    tp.append(r.characteristics)
                    if len(r.warnings) != 0:
                        tw.append(r.warnings)
                    i = first(r.characteristics, 'sot/isot')
                    parts = first(r.characteristics, 'sot/tnsot')
                    if i not in indices:
                        indices.append(i)
                    if parts != 0:
                        partsExpected[i] = parts
                    if i not in partsFound:
                        break
                    partsFound[i] = partsFound[i] + 1
                    if r.returnOffset > o:
                        o = r.returnOffset
                    else:
                        break
            self.t("foundExpectedNumberOfTiles", len(indices) == expected)
            if partsExpected:
                self.t("foundExpectedNumberOfTileParts", partsExpected == partsFound)
            if len(tt) != 0:
                self.tests.append(tt)
            self.characteristics.append(tp)
            if len(tw) != 0:
                self.warnings.append(tw)
            ccoc = every(self.characteristics, 'coc/ccoc')
            if ccoc:
                self.t("maxOneCcocPerComponentMain", len(set(ccoc)) == len(ccoc))
            cqcc = every(self.characteristics, 'qcc/cqcc')
            if cqcc:
                self.t("maxOneCqccPerComponentMain", len(set(cqcc)) == len(cqcc))
            self.t("foundEOCMarker", self.b[n - 2:n] == b'\xff\xd9')
            if self.format in ['j2c', 'jhc']:
                sc = rs.characteristics
                self.p("compressionRatio", ratio(n, every(sc, 'ssizDepth'), first(sc, 'ysiz') - first(sc, 'yOsiz'),
                                                 first(sc, 'xsiz') - first(sc, 'xOsiz')))
        self.isValid = self.verdict()

    def r_tilePart(self):
        o = self.startOffset
        plt = 0
        ppt = 0
        marker, contents, nxt = self.segment(o)
        sot = Ref(self.options, 'startOfTile', contents).validate()
        self.adopt(sot)
        o = nxt
        while marker != b'\xff\x93' and nxt != BAD:
            marker, contents, nxt = self.segment(o)
            if marker == b'\xff\x58':
                plt += 1
            if marker == b'\xff\x61':
                ppt += 1
            self.header(TILE, marker, contents, self.csiz)
            o = nxt
        self.t("foundSODMarker", marker == b'\xff\x93')
        self.p("pltCount", plt)
        self.p("pptCount", ppt)
        tpsot = first(self.characteristics, 'sot/tpsot')
        if self.characteristics.findall('cod'):
            self.t("CODAllowed", tpsot == 0)
        if self.characteristics.findall('coc'):
            self.t("COCAllowed", tpsot == 0)
        if self.characteristics.findall('qcd'):
            self.t("QCDAllowed", tpsot == 0)
        if self.characteristics.findall('qcc'):
            self.t("QCCAllowed", tpsot == 0)
        if self.characteristics.findall('rgn'):
            self.t("RGNAllowed", tpsot == 0)
        ccoc = every(self.characteristics, 'coc/ccoc')
        if ccoc:
            self.t("maxOneCcocPerComponentTP", len(set(ccoc)) == len(ccoc))
        cqcc = every(self.characteristics, 'qcc/cqcc')
        if cqcc:
            self.t("maxOneCqccPerComponentTP", len(set(cqcc)) == len(cqcc))
        psot = sot.tilePartLength
        end = self.startOffset + psot
        if psot != 0:
            self.t("foundNextTilePartOrEOC", self.b[end:end + 2] in [b'\xff\x90', b'\xff\xd9'])
        self.returnOffset = end

    # ------------------------------------------------------------ marker segments
    def r_siz(self):
        lsiz = self.u2(0)
        self.pt("lsiz", lsiz, 41 <= lsiz <= 49190)
        rsiz = self.u2(2)
        self.p("rsiz", rsiz)
        if self.format in ['jp2', 'j2c']:
            self.t("rsizIsValid", (rsiz >> 12) & 15 == 0)
        elif self.ht:
            self.t("rsizIsValid", (rsiz >> 14) & 1 == 1)
        self.p("capability", capability((rsiz >> 14) & 15, (rsiz >> 8) & 15, (rsiz >> 4) & 15, rsiz & 15))
        xsiz = self.u4(4)
        self.pt("xsiz", xsiz, 1 <= xsiz <= 2 ** 32 - 1)
        ysiz = self.u4(8)
        self.pt("ysiz", ysiz, 1 <= ysiz <= 2 ** 32 - 1)
        xO = self.u4(12)
        self.pt("xOsiz", xO, 0 <= xO <= 2 ** 32 - 2)
        yO = self.u4(16)
        self.pt("yOsiz", yO, 0 <= yO <= 2 ** 32 - 2)
        xT = self.u4(20)
        self.pt("xTsiz", xT, 1 <= xT <= 2 ** 32 - 1)
        yT = self.u4(24)
        self.pt("yTsiz", yT, 1 <= yT <= 2 ** 32 - 1)
        xTO = self.u4(28)
        self.pt("xTOsiz", xTO, 0 <= xTO <= 2 ** 32 - 2)
        yTO = self.u4(32)
        self.pt("yTOsiz", yTO, 0 <= yTO <= 2 ** 32 - 2)
        if xT != 0 and yT != 0:
            tiles = int(math.ceil((xsiz - xTO) / xT) * math.ceil((ysiz - yTO) / yT))
        else:
            tiles = 0
        self.p("numberOfTiles", tiles)
        csiz = self.u2(36)
        self.pt("csiz", csiz, 1 <= csiz <= 16384)
        self.t("lsizConsistentWithCsiz", lsiz == 38 + 3 * csiz)
        for i in range(csiz):
            s = self.u1(38 + 3 * i)
            depth = (s & 127) + 1
            self.p("ssizSign", (s >> 7) & 1)
            self.p("ssizDepth", depth)
            self.t("ssizIsValid", 1 <= depth <= 38)
            x = self.u1(39 + 3 * i)
            self.pt("xRsiz", x, 1 <= x <= 255)
            y = self.u1(40 + 3 * i)
            self.pt("yRsiz", y, 1 <= y <= 255)

    def coding(self, o, levels, precincts):
        """coding parameters shared by COD and COC, from the code-block width on"""
        w = self.u1(o) + 2
        self.p("codeBlockWidth", 2 ** w)
        self.t("codeBlockWidthExponentIsValid", 2 <= w <= 10)
        h = self.u1(o + 1) + 2
        self.p("codeBlockHeight", 2 ** h)
        self.t("codeBlockHeightExponentIsValid", 2 <= h <= 10)
        self.t("sumHeightWidthExponentIsValid", w + h <= 12)
        style = self.u1(o + 2)
        onlyHT = self.ht and style & 0xC0 == 64
        self.p("codingBypass", style & 1)
        if not onlyHT:
            self.p("resetOnBoundaries", (style >> 1) & 1)
        self.p("termOnEachPass", (style >> 2) & 1)
        self.p("vertCausalContext", (style >> 3) & 1)
        if not onlyHT:
            self.p("predTermination", (style >> 4) & 1)
            self.p("segmentationSymbols", (style >> 5) & 1)
        tr = self.u1(o + 3)
        self.pt("transformation", tr, tr in [0, 1])
        if precincts == 1:
            for i in range(levels + 1):
                v = self.u1(o + 4 + i)
                x = 2 ** (v & 15)
                y = 2 ** ((v >> 4) & 15)
                self.p("precinctSizeX", x)
                self.p("precinctSizeY", y)
                self.t("precinctSizeXIsValid", i == 0 or x >= 2)
                self.t("precinctSizeYIsValid", i == 0 or y >= 2)
        else:
            for i in range(levels + 1):
                self.p("precinctSizeX", 2 ** 15)
                self.p("precinctSizeY", 2 ** 15)

    def r_cod(self):
        lcod = self.u2(0)
        self.pt("lcod", lcod, 12 <= lcod <= 45)
        scod = self.u1(2)
        precincts = scod & 1
        self.p("precincts", precincts)
        self.p("sop", (scod >> 1) & 1)
        self.p("eph", (scod >> 2) & 1)
        order = unpack("B", self.b[3:7][0:1])
        self.pt("order", order, order in [0, 1, 2, 3, 4])
        layers = unpack("H", self.b[3:7][1:3])
        self.pt("layers", layers, 1 <= layers <= 65535)
        mct = unpack("B", self.b[3:7][3:4])
        self.pt("multipleComponentTransformation", mct, mct in [0, 1])
        levels = self.u1(7)
        self.pt("levels", levels, 0 <= levels <= 32)
        self.t("lcodConsistencyCheck", lcod == (13 + levels if precincts == 1 else 12))
        self.coding(8, levels, precincts)

    def comp(self, o, name, check):
        """component index: one byte below 257 components, else two"""
        if self.csiz < 257:
            v = self.u1(o)
            ok = 0 <= v <= 255
            n = o + 1
        else:
            v = self.u2(o)
            ok = 0 <= v <= 16383
            n = o + 2
        self.p(name, v)
        if check:
            self.t(name + "IsValid", ok)
        return n

    def r_coc(self):
        lcoc = self.u2(0)
        self.pt("lcoc", lcoc, 9 <= lcoc <= 43)
        o = self.comp(2, "ccoc", True)
        precincts = self.u1(o) & 1
        self.p("precincts", precincts)
        levels = self.u1(o + 1)
        self.pt("levels", levels, 0 <= levels <= 32)
        if precincts == 1 and self.csiz < 257:
            want = 10 + levels
        elif precincts == 1 and self.csiz >= 257:
            want = 11 + levels
        elif precincts == 0 and self.csiz < 257:
            want = 9
        else:
            want = 10
        self.t("lcocConsistencyCheck", lcoc == want)
        self.coding(o + 2, levels, precincts)

    def r_rgn(self):
        lrgn = self.u2(0)
        self.pt("lrgn", lrgn, 5 <= lrgn <= 6)
        o = self.comp(2, "crgn", True)
        style = self.u1(o)
        self.pt("roiStyle", style, style == 0)
        shift = self.u1(o + 1)
        if self.ht:
            ok = 0 <= shift <= 37
        else:
            ok = 0 <= shift <= 255
        self.pt("roiShift", shift, ok)

    def quant(self, o, n0, n2):
        s = self.u1(o)
        style = s & 31
        self.pt("qStyle", style, style in [0, 1, 2])
        self.p("guardBits", (s >> 5) & 7)
        if style == 0:
            for i in range(n0):
                self.p("epsilon", (self.u1(o + 1 + i) >> 3) & 31)
        elif style == 1:
            v = self.u2(o + 1)
            self.p("mu", v & 2047)
            self.p("epsilon", (v >> 11) & 31)
        elif style == 2:
            for i in range(n2):
                v = self.u2(o + 1 + 2 * i)
                self.p("mu", v & 2047)
                self.p("epsilon", (v >> 11) & 31)

    def r_qcd(self):
        n = self.u2(0)
        self.pt("lqcd", n, 4 <= n <= 197)
        self.quant(2, int((n - 4) / 3), int((n - 5) / 6))

    def r_qcc(self):
        n = self.u2(0)
        self.pt("lqcc", n, 5 <= n <= 199)
        o = self.comp(2, "cqcc", False)
        self.quant(o, int((n - 5) / 3) if self.csiz < 257 else int((n - 6) / 3),
                   int((n - 6) / 6) if self.csiz < 257 else int((n - 7) / 6))

    def r_poc(self):
        n = self.u2(0)
        self.pt("lpoc", n, 9 <= n <= 65535)
        if self.csiz < 257:
            changes = int((n - 2) / 7)
        else:
            changes = int((n - 2) / 9)
        o = 2
        for _ in range(changes):
            rs = self.u1(o)
            self.pt("rspoc", rs, 0 <= rs <= 32)
            o += 1
            if self.csiz < 257:
                cs = self.u1(o)
                ok = 0 <= cs <= 255
                o += 1
            else:
                cs = self.u2(o)
                ok = 0 <= cs <= 16383
                o += 2
            self.pt("cspoc", cs, ok)
            ly = self.u2(o)
            self.pt("lyepoc", ly, 1 <= ly <= 65535)
            o += 2
            re = self.u1(o)
            self.pt("repoc", re, rs + 1 <= re <= 33)
            o += 1
            if self.csiz < 257:
                ce = self.u1(o)
                ok = cs + 1 <= ce <= 255 or ce == 0
                o += 1
            else:
                ce = self.u2(o)
                ok = cs + 1 <= ce <= 16384 or ce == 0
                o += 2
            self.pt("cepoc", ce, ok)
            order = self.u1(o)
            self.pt("order", order, order in [0, 1, 2, 3, 4])
            o += 1

    def r_crg(self):
        n = self.u2(0)
        self.pt("lcrg", n, 6 <= n <= 65534)
        for i in range(self.csiz):
            x = self.u2(2 + 4 * i)
            self.pt("xcrg", x, 0 <= x <= 65535)
            y = self.u2(4 + 4 * i)
            self.pt("ycrg", y, 0 <= y <= 65535)

    def r_com(self):
        n = self.u2(0)
        self.pt("lcom", n, 5 <= n <= 65535)
        r = self.u2(2)
        self.pt("rcom", r, 0 <= r <= 1)
        c = self.b[4:n]
        if r == 0:
            ok = True
            c = binascii.hexlify(c)
        elif r == 1:
            try:
                c = c.decode("iso-8859-15", "strict")
            except UnicodeError:
                c = ""
            ok = printable(c) == c
        else:
            ok = False
        self.t("commentIsValid", ok)
        if ok:
            self.p("comment", c)

    def r_cap(self):
        lcap = self.u2(0)
        self.p("lcap", lcap)
        pcap = self.u4(2)
        parts = []
        for i in range(32):
            if (pcap >> (31 - i)) & 1 == 1:
                parts.append(i + 1)
                self.p("pcapPart", i + 1)
        self.t("lcapIsValid", len(parts) == (lcap - 6) / 2)
        ccaps = []
        for i in range(len(parts)):
            ccaps.append(self.u2(6 + 2 * i))
        if self.ht:
            self.t("pcap15IsValid", 15 in parts)
            if 15 in parts:
                v = ccaps[parts.index(15)]
                self.p("htCodeBlocks", v & 0xC000)
                self.p("htSets", (v >> 13) & 1)
                self.p("htRegion", (v >> 12) & 1)
                self.p("htHomogeneous", (v >> 11) & 1)
                self.p("htReversible", (v >> 5) & 1)
                m = v & 31
                if m == 0:
                    htB = 8
                elif m < 20:
                    htB = m + 8
                elif 20 <= m < 31:
                    htB = 4 * (m - 19) + 27
                else:
                    htB = 74
                self.p("htB", htB)

    def r_prf(self):
        n = self.u2(0)
        self.pt("lprf", n, 4 <= n <= 65534)
        num = 4095
        count = int((n - 2) / 2)
        for i in range(count):
            v = self.u2(2 + 2 * i)
            num += v * 2 ** (16 * i)
            if i == count - 1:
                self.t("pprfIsValid", v != 0)
        self.t("PRFnumIsValid", num > 4095)
        self.p("PRFnum", num)

    def r_cpf(self):
        n = self.u2(0)
        self.p("lcpf", n)
        if self.ht:
            self.t("lcpIsValid", 4 <= n <= 65534)
        num = -1
        count = int((n - 2) / 2)
        for i in range(count):
            v = self.u2(2 + 2 * i)
            num += v * 2 ** (16 * i)
            if i == count - 1 and self.ht:
                self.t("pcpfIsValid", v != 0)
        self.p("CPFnum", num)

    def r_sot(self):
        n = self.u2(0)
        self.pt("lsot", n, n == 10)
        i = self.u2(2)
        self.pt("isot", i, 0 <= i <= 65534)
        psot = self.u4(4)
        self.pt("psot", psot, not 1 <= psot <= 13)
        tp = self.u1(8)
        self.pt("tpsot", tp, 0 <= tp <= 254)
        self.p("tnsot", self.u1(9))
        self.tilePartLength = psot

    def r_tlm(self):
        pass

    def r_ppm(self):
        pass

    def r_ppt(self):
        pass

    def packetlengths(self, n, o):
        out = ''
        i = o
        while i < n and i < len(self.b):
            k = 1
            while i + k < len(self.b) and self.u1(i + k - 1) & 0x80:
                k += 1
            v = self.u1(i) & 0x7F
            for j in range(1, k):
                v = (v << 7) | (self.u1(i + j) & 0x7F)
            out += ('{:0' + str(2 * k) + 'X},').format(v)
            i += k
        return out[:-1]

    def r_plm(self):
        n = self.u2(0)
        self.p("lplm", n)
        self.p("zplm", self.u1(2))
        self.p("nplm", self.u1(3))
        self.p("iplm", self.packetlengths(n, 4))

    def r_plt(self):
        n = self.u2(0)
        self.p("lplt", n)
        self.p("zplt", self.u1(2))
        self.p("iplt", self.packetlengths(n, 3))


UNDEFINED = "Unknown (value not defined in ISO/IEC 15444-1)"


def capability(ext, profile, sub, main):
    if ext == 1:
        c = "CAP"
    elif ext == 2:
        c = "ISO/IEC 15444-2"
    elif ext == 3:
        c = "ISO/IEC 15444-2 + CAP"
    elif profile == 0:
        if main == 0:
            c = "ISO/IEC 15444-1"
        elif main == 1:
            c = "Profile 0"
        elif main == 2:
            c = "Profile 1"
        elif main == 3:
            c = "2K digital cinema profile"
        elif main == 4:
            c = "4K digital cinema profile"
        elif main == 5:
            c = "Scalable 2K digital cinema profile"
        elif main == 6:
            c = "Scalable 4K digital cinema profile"
        elif main == 7:
            c = "Long-term storage profile"
        else:
            c = UNDEFINED
    elif profile == 1:
        c = "Broadcast Contribution Single Tile Profile, Mainlevel " + str(main)
    elif profile == 2:
        c = "Broadcast Contribution Multi-tile Profile, Mainlevel " + str(main)
    elif profile == 3:
        c = "Broadcast Contribution Multi-tile Reversible Profile, Mainlevel " + str(main)
    elif profile == 4:
        c = "2k IMF Single Tile Lossy Profile, Mainlevel " + str(main) + "; Sublevel " + str(sub)
    elif profile == 5:
        c = "4k IMF Single Tile Lossy Profile, Mainlevel " + str(main) + "; Sublevel " + str(sub)
    elif profile == 6:
        c = "8k IMF Single Tile Lossy Profile, Mainlevel " + str(main) + "; Sublevel " + str(sub)
    elif profile == 7:
        c = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + str(main) + "; Sublevel " + str(sub)
    elif profile == 8:
        c = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + str(main) + "; Sublevel " + str(sub)
    elif profile == 9:
        c = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + str(main) + "; Sublevel " + str(sub)
    elif profile == 15 and sub == 15 and main == 15:
        c = "Profile signalled in Profile Marker"
    else:
        c = UNDEFINED
    return c
