"""Reference for the program around the validators: command line, file discovery, one report per file, MIX output.

This file is a specification: parsed by the analyser in /verif/sa, never imported or run.
"""
import argparse
import codecs
import datetime
import glob
import mmap
import os
import re
import sys
import unicodedata
import xml.etree.ElementTree as ET
from xml.dom import minidom

VERSION = "2.2.1"
FORMATS = ['jp2', 'jph', 'j2c', 'jhc']
NO_IMAGES = -7
HEAD = ("<?xml version='1.0' encoding='UTF-8'?>\n"
        "<jpylyzer xmlns=\"http://openpreservation.org/ns/jpylyzer/v2/\" "
        "xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" "
        "xsi:schemaLocation=\"http://openpreservation.org/ns/jpylyzer/v2/ "
        "http://jpylyzer.openpreservation.org/jpylyzer-v-2-2.xsd\">\n")

_, PROGRAM = os.path.split(sys.argv[0])
if not PROGRAM:
    PROGRAM = 'jpylyzer'

PARSER = argparse.ArgumentParser(description="JP2 image validator and properties extractor")


class Ref:
    """stands for a validator"""

    def __init__(self, options, bType, boxContents, startOffset=None, components=None):
        self.options = options

    def validate(self):
        return self


def put(parent, tag, text):
    ET.SubElement(parent, tag).text = text


def warn(msg):
    sys.stderr.write("User warning: " + msg + "\n")


# ---------------------------------------------------------------- code -> text
YESNO = {0: "no", 1: "yes"}
SIGN = {0: "unsigned", 1: "signed"}
NAMES = {
    'unkC': YESNO, 'iPR': YESNO,
    'profileClass': {b'scnr': "Input Device Profile", b'mntr': "Display Device Profile", b'prtr': "Output Device Profile",
                     b'link': "DeviceLink Profile", b'spac': "ColorSpace Conversion Profile", b'abst': "Abstract Profile",
                     b'nmcl': "Named Colour Profile"},
    'primaryPlatform': {b'APPL': "Apple Computer, Inc.", b'MSFT': "Microsoft Corporation", b'SGI': "Silicon Graphics, Inc.",
                        b'SUNW': "Sun Microsystems, Inc."},
    'embeddedProfile': YESNO, 'vidFRng': YESNO, 'profileCannotBeUsedIndependently': YESNO,
    'transparency': {0: "Reflective", 1: "Transparent"},
    'glossiness': {0: "Glossy", 1: "Matte"},
    'polarity': {0: "Positive", 1: "Negative"},
    'colour': {0: "Colour", 1: "Black and white"},
    'renderingIntent': {0: "Perceptual", 1: "Media-Relative Colorimetric", 2: "Saturation", 3: "ICC-Absolute Colorimetric"},
    'bSign': SIGN,
    'mTyp': {0: "direct use", 1: "palette mapping"},
    'precincts': {0: "default", 1: "user defined"},
    'sop': YESNO, 'eph': YESNO, 'multipleComponentTransformation': YESNO, 'codingBypass': YESNO, 'resetOnBoundaries': YESNO,
    'termOnEachPass': YESNO, 'vertCausalContext': YESNO, 'predTermination': YESNO, 'segmentationSymbols': YESNO,
    'bPCSign': SIGN, 'ssizSign': SIGN,
    'c': {7: "jpeg2000"},
    'meth': {1: "Enumerated", 2: "Restricted ICC", 3: "Any ICC", 4: "Vendor Colour", 5: "Parameterized Colourspace"},
    'enumCS': {16: "sRGB", 17: "greyscale", 18: "sYCC"},
    'cTyp': {0: "colour", 1: "opacity", 2: "premultiplied opacity", 3: "application-defined", 65535: "not specified"},
    'cAssoc': {0: "all colours", 65535: "no colours"},
    'order': {0: "LRCP", 1: "RLCP", 2: "RPCL", 3: "PCRL", 4: "CPRL"},
    'roiStyle': {0: "Implicit ROI (maximum shift)"},
    'transformation': {0: "9-7 irreversible", 1: "5-3 reversible"},
    'qStyle': {0: "no quantization", 1: "scalar derived", 2: "scalar expounded"},
    'rcom': {0: "binary", 1: "ISO/IEC 8859-15 (Latin)"},
    'htCodeBlocks': {0: "HTONLY", 32768: "HTDECLARED", 49152: "MIXED"},
    'htSets': {0: "SINGLEHT", 1: "MULTIHT"},
    'htRegion': {0: "RGNFREE", 1: "RGN"},
    'htHomogeneous': {0: "HOMOGENEOUS", 1: "HETEROGENEOUS"},
    'htReversible': {0: "HTREV", 1: "HTIRV"},
}


def printable(s):
    return "".join(ch for ch in s if unicodedata.category(ch)[0] != "C" or ch in ["\t", "\n", "\r"])


def makeHumanReadable(tree, table=None):
    table = table or {}
    for e in tree.iter():
        value = e.text
        try:
            names = table[e.tag]
            try:
                value = names[value]
            except KeyError:
                pass
        except KeyError:
            pass
        if value is not None:
            kind = type(value)
            if kind == bytes:
                try:
                    text = printable(value.decode("utf-8", "strict"))
                except BaseException:
                    text = ""
            elif kind in [int, float, bool]:
                text = str(value)
            else:
                text = printable(value)
            e.text = text


# ---------------------------------------------------------------- one file
def xmlname(s):
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        s = s.encode('utf-8', 'replace').decode('utf-8', 'ignore')
    return re.sub('[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]', '', s)


def contents(path):
    notes = []
    with open(path, "rb") as f:
        try:
            if sys.platform == "win32":
                data = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            else:
                data = mmap.mmap(f.fileno(), 0, mmap.MAP_SHARED, mmap.PROT_READ)
        except ValueError as e:
            size = os.path.getsize(path)
            if size > sys.maxsize:
                msg = ("file " + path + " too large to open (" + str(round(size / 1024**3, 1)) +
                       " GB). Try using 64-bit Python.")
                notes.append(msg)
                warn(msg)
                data = ""
            elif str(e) == "cannot mmap an empty file":
                msg = "empty file " + path
                notes.append(msg)
                warn(msg)
                data = ""
    return data, notes


def checkOneFile(path, fmt='jp2', verbose=False, packets=False, nullxml=False, mix=0):
    report = ET.Element('file')
    info = ET.Element('fileInfo')
    put(info, 'fileName', xmlname(os.path.basename(path)))
    put(info, 'filePath', xmlname(os.path.abspath(path)))
    try:
        size = os.path.getsize(path)
    except OSError:
        size = 0
    put(info, 'fileSizeInBytes', str(size))
    try:
        stamp = os.path.getmtime(path)
        modified = datetime.datetime.fromtimestamp(stamp).isoformat()
    except (ValueError, OverflowError, OSError):
        modified = datetime.datetime.fromtimestamp(0).isoformat()
    put(info, 'fileLastModified', modified)
    ok = True
    notes = []
    try:
        data, notes = contents(path)
        if fmt in ['jp2', 'jph']:
            kind = 'JP2'
        elif fmt in ['j2c', 'jhc']:
            kind = 'contiguousCodestreamBox'
        result = Ref({'validationFormat': fmt, 'verboseFlag': verbose, 'nullxmlFlag': nullxml,
                      'packetmarkersFlag': packets}, kind, data).validate()
        valid = result.isValid
        tests = result.tests
        properties = result.characteristics
        warnings = result.warnings
        if data != "":
            data.close()
        for n in notes:
            put(warnings, 'warning', n)
        makeHumanReadable(tests)
        makeHumanReadable(properties, NAMES)
        makeHumanReadable(warnings)
        if mix != 0 and valid:
            extra = generateMix(mix, properties)
    except Exception as e:
        valid = False
        ok = False
        if isinstance(e, MemoryError):
            why = "memory error (file size too large)"
        elif isinstance(e, IOError):
            why = "I/O error (cannot open file)"
        elif isinstance(e, RuntimeError):
            why = ("runtime error, please report to developers by creating "
                   "an issue at https://github.com/openpreserve/jpylyzer/issues")
        else:
            why = ("unknown error, please report to developers by creating "
                   "an issue at https://github.com/openpreserve/jpylyzer/issues")
        tests = ET.Element('tests')
        properties = ET.Element('properties')
        warnings = ET.Element('warnings')
        put(warnings, 'warning', why)
        warn(why)
    status = ET.Element('statusInfo')
    put(status, 'success', str(ok))
    if not ok:
        put(status, 'failureMessage', why)
    report.append(info)
    report.append(status)
    verdict = ET.SubElement(report, 'isValid')
    verdict.text = str(valid)
    verdict.set('format', fmt)
    report.append(tests)
    report.append(properties)
    extension = ET.Element('propertiesExtension')
    if mix != 0:
        report.append(extension)
        if fmt in ['jp2', 'jph'] and valid:
            extension.append(extra)
    report.append(warnings)
    return report


# ---------------------------------------------------------------- which files
FOUND = []


def matching(root, pattern):
    for d, subs, _ in os.walk(root):
        for s in subs:
            for f in glob.glob(os.path.join(os.path.join(d, s), pattern)):
                if os.path.isfile(f):
                    FOUND.append(f)


def find(recurse, paths):
    for p in paths:
        if os.path.isfile(p):
            FOUND.append(p)
        elif "*" in p:
            if not os.path.isabs(p):
                p = os.path.abspath(p)
            hits = glob.glob(p)
            if len(hits) == 1 and os.path.isdir(hits[0]):
                p = hits[0]
            if len(hits) == 1 and os.path.isfile(hits[0]):
                FOUND.append(hits[0])
            if len(hits) > 1:
                for f in hits:
                    if os.path.isfile(f):
                        FOUND.append(f)
        elif not os.path.isdir(p) and not os.path.isfile(p):
            warn(p + " does not exist")
        if recurse:
            if not os.path.isabs(p):
                p = os.path.abspath(p)
            if "*" in p:
                folder, pattern = os.path.split(p)
                if "*" in folder:
                    tops = glob.glob(folder)
                    if len(tops) == 1:
                        matching(tops[0], pattern)
                    if len(tops) > 1:
                        for t in tops:
                            if os.path.isdir(t):
                                matching(t, pattern)
                elif "*" in pattern:
                    matching(folder, pattern)
            elif os.path.isdir(p):
                for d, subs, files in os.walk(p):
                    for f in files:
                        FOUND.append(os.path.join(d, f))


# ---------------------------------------------------------------- program
def show(e, out, plain):
    text = ET.tostring(e, 'unicode', 'xml')
    if plain:
        out.write(text)
    else:
        lines = minidom.parseString(text).toprettyxml('    ').split("\n")
        del lines[0]
        out.write("\n".join(lines))


def stop(msg):
    sys.stderr.write("Error: " + msg + "\n")
    sys.exit()


def main():
    PARSER.add_argument('--format', '-f', action="store", type=str, dest="fmt", default="jp2")
    PARSER.add_argument('--mix', type=int, choices=[1, 2], dest="mixFlag", default=0)
    PARSER.add_argument('--nopretty', action="store_true", dest="noPrettyXMLFlag", default=False)
    PARSER.add_argument('--nullxml', action="store_true", dest="extractNullTerminatedXMLFlag", default=False)
    PARSER.add_argument('--recurse', '-r', action="store_true", dest="inputRecursiveFlag", default=False)
    PARSER.add_argument('--packetmarkers', '-p', action="store_true", dest="reportPacketMarkersFlag", default=False)
    PARSER.add_argument('--verbose', action="store_true", dest="outputVerboseFlag", default=False)
    PARSER.add_argument('--version', '-v', action='version', version=VERSION)
    PARSER.add_argument('jp2In', action="store", type=str, nargs='+')
    args = PARSER.parse_args()
    if not args.jp2In:
        print('')
        PARSER.print_help()
        sys.exit()
    if sys.version.startswith("2"):
        stop("Jpylyzer needs Python 3.x (Python 2.7 is no longer supported)")
    fmt = args.fmt.lower()
    if fmt not in FORMATS:
        stop("'" + fmt + "'  is not a supported value for --format")
    mix = args.mixFlag
    if fmt in ['j2c', 'jhc']:
        mix = 0
    find(args.inputRecursiveFlag, args.jp2In)
    if not FOUND:
        warn("no images to check!")
        sys.exit(NO_IMAGES)
    out = codecs.getwriter("UTF-8")(sys.stdout.buffer)
    out.write(HEAD)
    tool = ET.Element('toolInfo')
    put(tool, 'toolName', PROGRAM)
    put(tool, 'toolVersion', VERSION)
    show(tool, out, args.noPrettyXMLFlag)
    for path in FOUND:
        show(checkOneFile(path, fmt, args.outputVerboseFlag, args.reportPacketMarkersFlag,
                          args.extractNullTerminatedXMLFlag, mix), out, args.noPrettyXMLFlag)
    out.write("</jpylyzer>\n")


# ---------------------------------------------------------------- NISO MIX
def text(tree, path):
    return tree.find(path).text


def codestream(name):
    return 'contiguousCodestreamBox/' + name


def mixObject(p, version):
    basic = ET.Element('mix:BasicDigitalObjectInformation')
    form = ET.Element('mix:FormatDesignation')
    brand = p.find('fileTypeBox/br')
    if brand is None:
        kind = 'image/jp2'
    else:
        kind = 'image/' + brand.text.strip()
    put(form, 'mix:formatName', kind)
    basic.append(form)
    if version == 1:
        put(basic, 'mix:byteOrder', 'big_endian')
    else:
        put(basic, 'mix:byteOrder', 'big endian')
    comp = ET.Element('mix:Compression')
    scheme = 'JPEG 2000 Lossy'
    if text(p, codestream('cod/transformation')) == '5-3 reversible':
        scheme = 'JPEG 2000 Lossless'
    put(comp, 'mix:compressionScheme', scheme)
    if version == 1:
        put(comp, 'mix:compressionRatio', str(int(round(float(text(p, 'compressionRatio')), 0))))
    else:
        ratio = ET.Element('mix:compressionRatio')
        put(ratio, 'mix:numerator', str(int(round(float(text(p, 'compressionRatio')) * 100, 0))))
        put(ratio, 'mix:denominator', '100')
        comp.append(ratio)
    basic.append(comp)
    return basic


def mixImage(p, version):
    info = ET.Element('mix:BasicImageInformation')
    chars = ET.Element('mix:BasicImageCharacteristics')
    w = str(text(p, 'jp2HeaderBox/imageHeaderBox/width'))
    h = str(text(p, 'jp2HeaderBox/imageHeaderBox/height'))
    put(chars, 'mix:imageWidth', w)
    put(chars, 'mix:imageHeight', h)
    if p.find('jp2HeaderBox/colourSpecificationBox/icc'):
        photo = ET.Element('mix:PhotometricInterpretation')
        put(photo, 'mix:colorSpace', text(p, 'jp2HeaderBox/colourSpecificationBox/icc/colourSpace').strip())
        name = text(p, 'jp2HeaderBox/colourSpecificationBox/icc/description')
        profile = ET.Element('mix:ColorProfile')
        icc = ET.Element('mix:IccProfile')
        put(icc, 'mix:iccProfileName', name)
        profile.append(icc)
        photo.append(profile)
        chars.append(photo)
    else:
        cs = p.find('jp2HeaderBox/colourSpecificationBox/enumCS')
        if cs is not None:
            photo = ET.Element('mix:PhotometricInterpretation')
            put(photo, 'mix:colorSpace', cs.text.strip())
            chars.append(photo)
    info.append(chars)
    special = ET.Element('mix:SpecialFormatCharacteristics')
    jp2 = ET.Element('mix:JPEG2000')
    comment = p.find(codestream('com/comment'))
    if comment is not None:
        m = re.search(r'(.*)-v([0-9\.]*)', comment.text)
        if m:
            codec = ET.Element('mix:CodecCompliance')
            put(codec, 'mix:codec', m.group(1))
            put(codec, 'mix:codecVersion', m.group(2))
            jp2.append(codec)
    enc = ET.Element('mix:EncodingOptions')
    tx = text(p, codestream('siz/xTsiz'))
    ty = text(p, codestream('siz/yTsiz'))
    if version == 1:
        put(enc, 'mix:tiles', str(tx) + 'x' + str(ty))
    else:
        tiles = ET.Element('mix:Tiles')
        put(tiles, 'mix:tileWidth', str(tx))
        put(tiles, 'mix:tileHeight', str(ty))
        enc.append(tiles)
    layers = text(p, codestream('cod/layers'))
    if str(layers) != "0":
        put(enc, 'mix:qualityLayers', str(layers))
    levels = text(p, codestream('cod/levels'))
    if str(levels) != "0":
        put(enc, 'mix:resolutionLevels', str(levels))
    jp2.append(enc)
    special.append(jp2)
    info.append(special)
    return info


RDF = '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}'
XAP = '{http://ns.adobe.com/xap/1.0/}'
TIFF = '{http://ns.adobe.com/tiff/1.0/}'
AUX = '{http://ns.adobe.com/exif/1.0/aux/}'


def described(rdf, name):
    """value of a property of the RDF description: element, else attribute"""
    e = rdf.find(RDF + 'Description/' + name)
    if e is not None:
        return e.text
    d = rdf.find(RDF + 'Description')
    if d is None:
        return None
    v = d.attrib.get(name, None)
    if v and v is not None:
        return v
    return None


def copied(rdf, name, into, tag):
    v = described(rdf, name)
    if v is not None:
        put(into, tag, v.strip())
        return True
    return False


def mixCapture(p, version):
    if version == 0:
        return None
    capture = ET.Element('mix:ImageCaptureMetadata')
    rdf = p.find('xmlBox/{adobe:ns:meta/}xmpmeta/' + RDF + 'RDF')
    if not rdf:
        rdf = p.find('uuidBox/{adobe:ns:meta/}xmpmeta/' + RDF + 'RDF')
    if not rdf:
        return None
    general = ET.Element('mix:GeneralCaptureInformation')
    copied(rdf, XAP + 'CreateDate', general, 'mix:dateTimeCreated')
    copied(rdf, TIFF + 'Artist', general, 'mix:imageProducer')
    capture.append(general)
    scanner = ET.Element('mix:ScannerCapture')
    filled = copied(rdf, TIFF + 'Make', scanner, 'mix:scannerManufacturer')
    model = ET.Element('mix:ScannerModel')
    named = copied(rdf, TIFF + 'Model', model, 'mix:scannerModelName')
    named = copied(rdf, AUX + 'SerialNumber', model, 'mix:scannerModelSerialNo') or named
    if named:
        scanner.append(model)
        filled = True
    creator = described(rdf, XAP + 'CreatorTool')
    if creator is not None:
        soft = ET.Element('mix:ScanningSystemSoftware')
        m = re.search(r'^(.*) ([0-9\.]*)$', creator)
        if m:
            put(soft, 'mix:scanningSoftwareName', m.group(1))
            put(soft, 'mix:scanningSoftwareVersionNo', m.group(2))
        else:
            put(soft, 'mix:scanningSoftwareName', creator)
        scanner.append(soft)
        filled = True
    if filled:
        capture.append(scanner)
    return capture


def frequency(box, name):
    return int(float(box.find(name).text) * 100)


def mixAssessment(p, version):
    info = ET.Element('mix:ImageAssessmentMetadata')
    box = p.find('jp2HeaderBox/resolutionBox/captureResolutionBox')
    if box is not None:
        x = frequency(box, 'hRescInPixelsPerMeter')
        y = frequency(box, 'vRescInPixelsPerMeter')
    else:
        box = p.find('jp2HeaderBox/resolutionBox/displayResolutionBox')
        if box is not None:
            x = frequency(box, 'hResdInPixelsPerMeter')
            y = frequency(box, 'vResdInPixelsPerMeter')
    if box is not None:
        metrics = ET.Element('mix:SpatialMetrics')
        if version == 1:
            put(metrics, 'mix:samplingFrequencyUnit', '3')
        else:
            put(metrics, 'mix:samplingFrequencyUnit', 'cm')
        fx = ET.Element('mix:xSamplingFrequency')
        put(fx, 'mix:numerator', str(x))
        put(fx, 'mix:denominator', '10000')
        metrics.append(fx)
        fy = ET.Element('mix:ySamplingFrequency')
        put(fy, 'mix:numerator', str(y))
        put(fy, 'mix:denominator', '10000')
        metrics.append(fy)
        info.append(metrics)
    siz = p.find(codestream('siz'))
    depths = siz.findall('ssizDepth')
    encoding = ET.Element('mix:ImageColorEncoding')
    if version == 1:
        bits = ET.Element('mix:bitsPerSample')
        put(bits, 'mix:bitsPerSampleValue', ','.join(map(lambda e: e.text, depths)))
        put(bits, 'mix:bitsPerSampleUnit', 'integer')
        encoding.append(bits)
    else:
        bits = ET.Element('mix:BitsPerSample')
        for e in depths:
            put(bits, 'mix:bitsPerSampleValue', e.text)
        put(bits, 'mix:bitsPerSampleUnit', 'integer')
        encoding.append(bits)
    put(encoding, 'mix:samplesPerPixel', siz.find('csiz').text)
    info.append(encoding)
    return info


def generateMix(version, p):
    if version == 1:
        ns = 'http://www.loc.gov/mix/v10'
        where = 'http://www.loc.gov/mix/v10 http://www.loc.gov/standards/mix/mix10/mix10.xsd'
    else:
        ns = 'http://www.loc.gov/mix/v20'
        where = 'http://www.loc.gov/mix/v20 http://www.loc.gov/standards/mix/mix.xsd'
    root = ET.Element('mix:mix', {'xmlns:mix': ns, 'xmlns:xsi': 'http://www.w3.org/2001/XMLSchema-instance',
                                  'xsi:schemaLocation': where})
    root.append(mixObject(p, version))
    root.append(mixImage(p, version))
    capture = mixCapture(p, version)
    if capture and capture is not None:
        root.append(capture)
    root.append(mixAssessment(p, version))
    return root
