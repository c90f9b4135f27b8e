#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BV = 'jpylyzer/boxvalidator.py'
JP = 'jpylyzer/jpylyzer.py'
UNIT = ('value-graph congruence against reference rules; region comparison of graphs that are not congruent')
UNITNOTE = ('Every (validator, reported field) obligation: the guarded value graph extracted from the source is the same normal '
            'form as that of the reference rule, which settles it for every input. Graphs that are not congruent are compared on '
            'a representative of every region their guards induce (bounded); a difference is a violation, anything else '
            'undecided is reported in the evidence and stays quiet. Trusts spec/ref.py and the library summaries in sa/.')

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=UNIT, note=UNITNOTE):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


prop('C01', 'The verdict is valid exactly when no reported test failed',
     'A file whose analysis completes is reported as valid if and only if none of the tests recorded for it, at any nesting '
     'depth, has the outcome False. Every recorded test outcome is a genuine boolean.',
     ['inputs', 'configurations'], 'all byte contents, all validation formats, all option combinations',
     'The tests look at a few dozen sample files; which tests fail together, at which depth and under which options is a '
     'product no sample set covers.',
     [BV, 'jpylyzer/etpatch.py'], [('verdict over the tests tree', BV + ' _isValid'), ('recording outcomes', BV + ' testFor')],
     ['isValid and tests elements of the report'])
prop('C02', 'Reporting options never change what is judged',
     'For one and the same file and format, the verdict and the set of failed tests do not depend on the verbose, null-XML '
     'and packet-marker options. Verbose only adds passed tests, null-XML only adds null-terminated XML '
     'content, and packet-marker only adds packet marker segments to the report; everything else reported stays the same.',
     ['inputs', 'configurations'], 'all file contents and all pairs of option settings',
     'A relation between two runs over every file and option pair; the tests run each file with default options only.',
     [BV], [('option flags', BV + ' __init__, testFor'), ('packet markers', BV + ' validate_contiguousCodestreamBox, validate_tilePart'),
            ('null-terminated XML', BV + ' validate_xmlBox, validate_uuidBox')],
     technique='non-interference: value graphs specialised per option combination must be identical',
     note='For each validator the failing part of the tests graph and the properties graph are specialised to the 8 option '
          'combinations and must be the same normal form (guards compared by mutual implication). Where they are not, the '
          'specialisations are compared pairwise on the input regions; only a difference is a violation.')
prop('C03', 'Nothing found in a file is lost from the report',
     'Every box, marker segment, tile part and ICC profile that is parsed contributes its properties, its failed tests and '
     'its warnings to the report, in the order in which they occur, including repeated ones and those nested in superboxes or '
     'tile parts. Unknown boxes are reported with their type and a warning instead of being dropped silently.',
     ['inputs'], 'all sequences and nestings of boxes and marker segments',
     'The number of box and segment sequences is unbounded; the sample files contain each box in one usual place.',
     [BV, 'jpylyzer/etpatch.py'], [('collecting nested results', BV + ' validate_JP2, validate_jp2HeaderBox, '
                                    'validate_contiguousCodestreamBox, validate_tilePart'),
                                   ('merging trees', 'jpylyzer/etpatch.py appendIfNotEmpty')])
prop('C04', 'Field rules of the container boxes are applied exactly',
     'For every content of a signature, file type, image header, bits per component, colour specification, palette, '
     'component mapping, channel definition, resolution, UUID, UUID list, URL, XML or intellectual property box, exactly the '
     'tests the format prescribes are performed and each has the outcome the rule gives for the stored field values. This '
     'includes the boundary values and the rules that depend on the validation format.',
     ['inputs', 'configurations'], 'all box contents of any length, the four validation formats',
     'Each rule quantifies over all values of its field, including limits and combinations; tests check whole-file verdicts '
     'on sample files.',
     [BV], [('box validators', BV + ' validate_*Box')], ['tests elements per box'])
prop('C05', 'Required boxes, their order and their number are checked exactly',
     'For every sequence of top-level boxes and of boxes inside a superbox, the presence, position, uniqueness and contiguity '
     'tests give exactly the outcome that the sequence of box types implies.',
     ['inputs', 'configurations'], 'all sequences of boxes in a file, in the image header superbox, resolution and UUID info superboxes',
     'Sequences of boxes are unbounded; only a few orders occur in the sample files.',
     [BV, 'jpylyzer/shared.py'], [('box order and presence', BV + ' validate_JP2, validate_jp2HeaderBox, validate_resolutionBox, '
                                   'validate_uuidInfoBox'), ('contiguity', 'jpylyzer/shared.py listOccurrencesAreContiguous')])
prop('C06', 'Image header and codestream are compared consistently',
     'The tests that compare image header fields (height, width, number of components, sign and bit depth) with the '
     'codestream size segment pass exactly when the corresponding values agree, also when the bit depth varies per component.',
     ['inputs'], 'all combinations of header and codestream field values',
     'Agreement is a relation between two independent parts of the file over their full value ranges.',
     [BV], [('consistency tests', BV + ' validate_JP2')])
prop('C07', 'Rules of the size and coding style segments are applied exactly',
     'For every content of the SIZ, COD and COC marker segments, exactly the prescribed tests are performed and each has the '
     'outcome the standard gives for the stored values, including the rules that depend on the number of components, '
     'decomposition levels and precincts.',
     ['inputs', 'configurations'], 'all segment contents, all component counts and validation formats',
     'Rules quantify over complete field ranges and repetition counts; samples hit a handful of values.',
     [BV], [('segment validators', BV + ' validate_siz, validate_cod, validate_coc')])
prop('C08', 'Rules of the other marker segments are applied exactly',
     'For every content of the CAP, PRF, CPF, RGN, QCD, QCC, POC, CRG, COM, TLM, PLM, PLT, PPM, PPT and SOT marker segments, '
     'exactly the prescribed tests are performed and each has the outcome the standard gives for the stored values.',
     ['inputs', 'configurations'], 'all segment contents, all component counts and validation formats',
     'Rules quantify over complete field ranges and repetition counts; most of these segments hardly occur in the samples.',
     [BV], [('segment validators', BV + ' validate_cap ... validate_sot')])
prop('C09', 'The structure of codestreams and tile parts is checked exactly',
     'For every byte sequence in a codestream, the tests on required, allowed and uniquely allowed marker segments, on tile '
     'parts, their numbering and number, on tile-part lengths and on the end marker have exactly the outcome that the sequence of '
     'marker segments implies, in the main header as well as in every tile-part header.',
     ['inputs', 'configurations'], 'all codestreams: any sequence of markers and tile parts',
     'Marker sequences and tile-part histories are unbounded; samples are nearly all regular.',
     [BV], [('codestream walk', BV + ' validate_contiguousCodestreamBox'), ('tile part walk', BV + ' validate_tilePart')])
prop('C10', 'Reported container properties equal the stored fields',
     'Every property reported for a box holds the value stored at the position the format defines for it, with the right '
     'width, byte order, sign and repetition; no property is left out, repeated or invented.',
     ['inputs'], 'all box contents', 'Values at every position over the full range; tests compare few reported values.',
     [BV, 'jpylyzer/byteconv.py'], [('field extraction', BV + ' validate_*Box'), ('number conversion', 'jpylyzer/byteconv.py')])
prop('C11', 'Reported codestream properties equal the stored fields',
     'Every property reported for a codestream marker segment or tile part holds the value stored at the position the '
     'standard defines for it, with the right width, byte order and repetition, also for fields whose width or number depends '
     'on other fields.',
     ['inputs', 'configurations'], 'all segment contents and component counts',
     'Values at every position over the full range; tests compare few reported values.',
     [BV, 'jpylyzer/byteconv.py'], [('field extraction', BV + ' segment validators'), ('number conversion', 'jpylyzer/byteconv.py')])
prop('C12', 'ICC profile properties and rules follow the ICC header',
     'For every embedded ICC profile, the reported header fields, flags, version, tags and description equal what is stored in '
     'the profile, and the tests on profile class and colour method have the outcome that the profile implies.',
     ['inputs', 'configurations'], 'all profile contents', 'Samples embed two or three common profiles.',
     [BV], [('ICC parsing', BV + ' validate_icc'), ('use in colour box', BV + ' validate_colourSpecificationBox')])
prop('C13', 'Derived values are computed correctly',
     'Values that are computed rather than stored (bit depth and sign, number of tiles, resolution in pixels per metre and per '
     'inch, code-block and precinct sizes, packet length lists, capability and profile numbers, compression ratio) equal the value '
     'the stored fields determine.',
     ['inputs'], 'all stored field values, including zero, extreme and missing ones',
     'Arithmetic over full ranges including degenerate denominators; tests look at typical values.',
     [BV], [('derived characteristics', BV + ' validate_siz, validate_captureResolutionBox, validate_JP2, _calculateCompressionRatio')])
prop('C14', 'Every byte range is interpreted as the right box or segment',
     'Box and marker segment boundaries follow the stored lengths, including extended lengths, lengths of zero and zero-length '
     'markers, and each range is interpreted by the rules for its type and with the right contents; unknown types '
     'are skipped by their length.',
     ['inputs'], 'all sequences of boxes and segments with all length encodings',
     'Length encodings combine with all types and positions; samples use the ordinary encoding.',
     [BV], [('box framing', BV + ' _getBox'), ('segment framing', BV + ' _getMarkerSegment'), ('dispatch', BV + ' typeMap')])
prop('C15', 'Missing or truncated data never makes a test pass',
     'When the bytes of a field are missing because a box, segment or file is cut short, no test that judges that field '
     'passes, apart from the tile-part length and precinct sizes, which have their own tests.',
     ['inputs'], 'all truncation points of all contents',
     'Truncation at every offset of every structure; tests have a few truncated files.',
     [BV, 'jpylyzer/byteconv.py'], [('sentinel for missing data', 'jpylyzer/byteconv.py _doConv'), ('range tests', BV)])
prop('C16', 'Analysis of any file terminates',
     'Every loop over boxes, marker segments, tile parts, packet lengths or list entries moves forward, so analysis of any '
     'file content ends.',
     ['inputs'], 'all file contents', 'A hang needs one specific malformed length; tests only run files that end.',
     [BV], [('offset progress', BV + ' while loops')],
     technique='value-graph congruence; recurrence of loop state in the non-congruent graphs',
     note='Loops with the same graph as a reference loop that is known to make progress end; for changed loops the state '
          'recurrence is examined on the input regions, and a repeated state or no end within the iteration bound is a violation.')
prop('C18', 'Malformed content never triggers an internal error',
     'Whatever bytes a file contains, analysing its boxes and marker segments raises no exception: malformed or truncated '
     'content shows up as failed tests, not as an internal error.',
     ['inputs'], 'all file contents', 'Needs the one malformed value that reaches an unguarded operation.',
     [BV, 'jpylyzer/byteconv.py', 'jpylyzer/shared.py'], [('guarded conversions', 'jpylyzer/byteconv.py'), ('guards', BV)],
     technique='exception-effect analysis: every operation that can raise is excluded by its guards',
     note='Every operation in the extracted graphs that can raise (division, index, lookup, attribute of None, unbound name, '
          'conversion) is an obligation, discharged by its path guards or because the reference has the same operation under '
          'the same guard; remaining ones are evaluated on the input regions.')


TOPNOTE = ('Every (unit, observable) obligation - report parts, text written, files opened, exits, what may raise - has the same '
           'guarded value graph as the reference program, which settles it for every input. Units with a non-congruent graph are '
           'compared by evaluating both graphs in a family of scenarios (command lines, directory trees, faults of every '
           'operation, property values); a difference is a violation, anything undecided is reported in the evidence and stays '
           'quiet. Trusts spec/top.py and the library summaries in sa/.')
TOP = 'value-graph and effect congruence against a reference program; scenario comparison of graphs that are not congruent'
ET_ = 'jpylyzer/etpatch.py'
MX = 'jpylyzer/mix.py'

prop('C17', 'A file that cannot be analysed never stops the run or spoils other reports',
     'Whatever goes wrong while one file is opened, read, analysed or reported, that file still gets a complete report marked '
     'unsuccessful and not valid, with empty results and a message naming the kind of failure. All other files of the same run '
     'are analysed and reported as if they were alone.',
     ['inputs', 'fault_sequences'], 'all files and every failing operation with every kind of error, all formats and options',
     'Needs a fault at a particular operation; the tests contain no input/output, memory or internal errors.',
     [JP], [('containment', JP + ' checkOneFile'), ('messages', JP + ' checkOneFile'), ('loop over files', JP + ' checkFiles')],
     ['statusInfo, isValid, warnings'],
     technique='exception-effect analysis and ' + TOP, note=TOPNOTE)
prop('C19', 'Every report has the published structure',
     'The output for any run consists of one document with the tool information followed by one entry per analysed file. '
     'Each entry holds file information, status, verdict with the validation format, tests, properties, the optional extension '
     'and warnings, in this order, each exactly once, and the file information gives the name, absolute path, size and '
     'modification time of that very file.',
     ['inputs', 'configurations', 'fault_sequences'], 'all files, options, formats, and all failures',
     'The structure must hold for every outcome including failures; the tests look at the verdict of sample files.',
     [JP, 'xsd/jpylyzer-v-2-2.xsd'], [('building the entry', JP + ' checkOneFile'), ('document', JP + ' checkFiles, main')],
     technique=TOP, note=TOPNOTE)
prop('C20', 'The output is always a well-formed UTF-8 XML document',
     'Whatever file names, file contents and locale, standard output of a run that analyses files is well-formed XML in UTF-8 '
     'that can be parsed back. Text that XML cannot hold is removed, never passed on.',
     ['inputs', 'configurations'], 'all file names, all extracted values, all locales',
     'Needs control characters, surrogates or undecodable bytes in names or fields, or an unusual locale.',
     [JP, ET_, 'jpylyzer/shared.py'], [('cleaning file names', JP + ' checkOneFile'), ('cleaning values', ET_ + ' makeHumanReadable'),
                                       ('encoding', JP + ' writeElement, main')],
     technique=TOP, note=TOPNOTE)
prop('C21', 'Standard output carries the report and nothing else',
     'Diagnostics go to standard error only; standard output holds the report, or nothing when no file is analysed. Every '
     'failure, missing input and unusable option value is announced on standard error.',
     ['inputs', 'configurations', 'fault_sequences'], 'all inputs, options and failures',
     'A stray message appears only on the path that writes it; tests call functions and do not look at the streams.',
     [JP, 'jpylyzer/shared.py', BV], [('messages', 'jpylyzer/shared.py printWarning, errorExit'), ('report', JP + ' writeElement')],
     technique='effect analysis of every write, with ' + TOP, note=TOPNOTE)
prop('C22', 'Input files are only ever read, and are released',
     'Analysis opens inputs for reading only and maps them read-only, changes nothing in the file system, and has released the '
     'file when its report is complete.',
     ['inputs', 'fault_sequences', 'configurations'], 'all files, platforms and failures',
     'A write mode or a missing release has no effect on the verdicts the tests look at.',
     [JP, BV], [('opening and mapping', JP + ' fileToMemoryMap'), ('release', JP + ' checkOneFile')],
     technique='effect analysis: every open, map, close and file-system call in the summaries', note=TOPNOTE)
prop('C23', 'A report depends only on its own file and the options',
     'The report of a file is a function of the content and metadata of that file and of the options of the run. It does not depend on '
     'which files were analysed before it, how many, in what order, or how their analysis ended, within a run or between calls of '
     'the programming interface.',
     ['histories', 'inputs', 'configurations'], 'all sequences of files and calls, all outcomes of earlier analyses',
     'Needs two or more analyses in one process, with the earlier one taking a particular path; tests look at single files.',
     [JP, BV, 'jpylyzer/config.py', 'jpylyzer/shared.py', 'jpylyzer/etpatch.py', 'jpylyzer/mix.py'],
     [('module state', 'jpylyzer/config.py'), ('default arguments and class attributes', JP + ' checkOneFile, ' + BV),
      ('loop over files', JP + ' checkFiles')],
     technique='heap-effect analysis: no unit changes state that exists before an analysis; congruence of summaries from the state left behind',
     note='Module globals, class attributes, default arguments and the objects they hold are compared before and after each summarised '
          'unit; no change proves the property. Where a unit changes shared state, every unit is summarised again from the state left '
          'behind and must be congruent with its first summary; pairs that are not are evaluated on sampled histories and only a '
          'difference is a violation.')
prop('C24', 'Command-line options mean what the documentation says',
     'For every command line, the documented options and their aliases select format, extension output, pretty-printing, '
     'null-XML extraction, recursion, packet markers and verbosity as documented, with the documented defaults, and are applied '
     'to every file. Unsupported values end the run with a message and without a report, and the exit status is the documented one.',
     ['configurations', 'inputs'], 'all command lines', 'Combinations of options and values; the tests call internal functions directly.',
     [JP], [('parsing', JP + ' parseCommandLine'), ('applying', JP + ' main, checkFiles, checkOneFile')],
     technique=TOP, note=TOPNOTE)
prop('C25', 'Codes are reported with the documented names, other values unchanged',
     'Every extracted value appears in the report as text: codes with a documented name as that name, numbers and booleans in '
     'their usual notation, byte strings decoded as UTF-8, and text with unprintable characters removed. No other value, test '
     'outcome or warning is altered, at any nesting depth.',
     ['inputs'], 'all extracted values of every field', 'Each table entry and each kind of value must be right; samples use a few.',
     [JP, ET_], [('tables', JP + ' checkOneFile'), ('conversion', ET_ + ' makeHumanReadable')],
     technique=TOP, note=TOPNOTE)
prop('C26', 'The MIX extension states exactly what the properties state',
     'For a valid file the requested extension follows the structure of the requested MIX version and its values are those of the '
     'reported properties, converted to the units MIX prescribes; optional elements appear exactly when the property they come '
     'from exists. Missing optional properties never make the report fail; no extension content is given for files that are not valid.',
     ['inputs', 'configurations'], 'all property sets of valid files, both MIX versions',
     'Depends on which optional boxes and metadata a file has; tests compare a few files.',
     [MX, JP], [('generation', MX + ' generateMix'), ('when', JP + ' checkOneFile')],
     technique=TOP, note=TOPNOTE)
prop('C27', 'Exactly the requested files are analysed, in order',
     'Every existing file that is named, matches a wildcard or, with recursion, lies below a named directory is analysed once per '
     'mention, in the order of the arguments; directories and files that were not requested are not. Arguments that match nothing '
     'are announced without stopping the run, and a run without any file ends with the documented status.',
     ['inputs', 'configurations'], 'all argument lists, directory trees and wildcards, with and without recursion',
     'Combinations of argument kinds, wildcards and trees; no test covers discovery.',
     [JP], [('discovery', JP + ' findFiles, getFilesWithPatternFromTree, getFilesFromTree, checkFiles')],
     technique=TOP, note=TOPNOTE)


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=[], not_applicable=[],
             notes='Checks need only python3 (standard library); they parse /repo and never import or run it.')
    for p in P:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 checks/check.py %s quick' % p['id'],
                                thorough_cmd='python3 checks/check.py %s thorough' % p['id'],
                                technique=p['technique'], level='other', level_note=p['note']))
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    assert len(set(p['id'] for p in P)) == len(P)
    for p in P:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
