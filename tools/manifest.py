#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below; also checks them against the schemas if present."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = 'packages/optivorbis/src/vorbis/optimizer'
OPT, APC, APA, APR = O + '.rs', O + '/audio_packet_common.rs', O + '/audio_packet_analyze.rs', O + '/audio_packet_rewrite.rs'
IDC, SHP, CHP, SHR, CHC = [O + '/%s.rs' % x for x in ('identification_header_copy', 'setup_header_parse', 'comment_header_parse',
                                                      'setup_header_rewrite', 'comment_header_copy')]
CB = 'packages/optivorbis/src/vorbis/codebook/'
HCL, HT, CBM = CB + 'huffman_codeword_lengths.rs', CB + 'huffman_tree.rs', CB + 'mod.rs'
VB = 'packages/optivorbis/src/vorbis.rs'
R = 'packages/optivorbis/src/remuxer/ogg_to_ogg/'
MOD, GRAN, MANG = R + 'mod.rs', R + 'granulator.rs', R + 'ogg_vorbis_stream_mangler.rs'
BP = 'packages/vorbis_bitpack/src/lib.rs'
CLI = 'packages/optivorbis_cli/src/bin/optivorbis.rs'

JS = 'packages/optivorbis/src/wasm_bindings.rs'

V, G, B, C = 'VorbisTrace', 'OggTrace', 'Bitpack', 'Cli'


def p(id, title, statement, over, text, why, files, mech, spec, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, spec=spec, note=note)


PROPS = [
p('V01', 'Audio is lossless: every packet decodes to the same symbols',
  'Every audio packet written decodes, with the headers written, to exactly the entries, amplitudes and header bits that the source packet decodes to with the source headers, in the same order. Its block size is unchanged.',
  ['inputs'], 'for every Vorbis stream (any setup header, channel count, block sizes, any packet contents, including packets with spare bytes)',
  'The tests compare the decoded audio of seven encoder outputs; setups that encoders do not emit (many channels, coupling chains, floor 0, residue types 0 and 1, cascades, odd dimensions) never occur.',
  [APC, APR, APA, SHR, HT], [('decoding of a packet into symbols', APC), ('rewriting with the new codes', APR), ('canonical code assignment', HT)], V,
  'reads source and output with an independent decoder in the specification and compares the symbols'),
p('V02', 'The setup header keeps everything but the code of its codebooks',
  'The setup header written has the same codebooks in number, dimensions, entries in use or ever used, and vector lookup values, and the same floors, residues, mappings and modes as the source. Only codeword lengths, and the entries that the stream never uses, may differ.',
  ['inputs'], 'for every acceptable setup header and every audio that follows it',
  'The fixtures use a few libvorbis setups: no ordered or sparse corner cases, no lookup type 1 beyond small books, no floor 0.',
  [SHP, SHR, CBM, VB], [('setup parsing', SHP), ('setup rewriting', SHR), ('lookup1_values', VB)], V, 'parses both setup headers with the specification\'s own parser'),
p('V03', 'Codes are optimal for the stream and complete',
  'The codeword lengths written for each codebook minimize the total size of its symbols in the stream, over all prefix codes, and give a codeword to every entry that the stream uses. The code leaves no codeword unassigned, except that a codebook with a single used entry has one codeword. Where the minimum would need codewords longer than 32 bits, which the format cannot express, the code has at most 32 bits and no more frequent entry has a longer codeword than a less frequent one.',
  ['inputs'], 'for every distribution of symbols over every codebook of every stream',
  'The tests only compare sizes and lengths for a handful of frequency tables.',
  [HCL, SHR, APA], [('Huffman code construction and length limiting', HCL), ('counting symbols in the first pass', APA)], V,
  'computes the optimal cost from the symbols the specification decoded, by Huffman\'s algorithm, with an exhaustive comparison on small frequency tables'),
p('V04', 'What is written is conformant and carries no spare bits',
  'The setup header and the audio packets written conform to the Vorbis I format with reserved values clear and framing set, use no more bytes than their contents need, and pad the last byte with zeros. This holds also when the source was repairable rather than conformant.',
  ['inputs'], 'for every accepted source, conformant or leniently accepted',
  'Tests feed only conformant files, and decoders ignore spare bytes.',
  [SHR, APR, SHP], [('setup rewriting', SHR), ('audio packet rewriting', APR)], V, 'strict parsing of every packet written'),
p('V05', 'The identification header is copied without its fields changing',
  'The identification header written has the channels, sample rate, bitrates and block sizes of the source, with the framing bit set and no spare bytes. A source header with fields out of the ranges of the format is rejected.',
  ['inputs'], 'for every identification packet', 'The fixtures have four identification headers between them.',
  [IDC, OPT], [('identification header copy', IDC)], V, 'byte comparison and the acceptance rules of the specification'),
p('V06', 'Comments are kept, deleted or tagged exactly as asked',
  'The comment header written has the vendor string and the user comments that the chosen actions give for those of the source, byte for byte, in order and well formed. Malformed comment headers are repaired to the comments that can be read.',
  ['inputs', 'configurations'], 'for every comment packet and every pair of actions', 'The tests check one vendor string per action on encoder output.',
  [CHP, CHC], [('comment header parsing', CHP), ('comment header writing', CHC)], V, 'the specification computes the bytes expected from the packet and the actions'),
p('V07', 'Packets that decoders skip are dropped, and only those',
  'Audio packets that carry no audio for a decoder (empty, of the wrong type, or too short to select a block size) are left out, consistently in both passes. Every other audio packet is kept, in order.',
  ['inputs', 'histories'], 'for every sequence of audio packets', 'One fixture has empty packets; none has other skipped ones.',
  [APA, APR, APC], [('first pass packet filter', APA), ('second pass packet filter', APR)], V, 'the specification decides for each packet what a decoder does'),
p('V08', 'Truncated packets keep all that they contain',
  'A packet that ends early keeps every symbol before the point at which it ends, and the packet written ends after these, so that a decoder reads the same symbols and then meets the end of the packet.',
  ['inputs'], 'for every packet and every point of truncation', 'No fixture has truncated packets.',
  [APC, APR], [('end of packet handling', APC), ('rewriting up to the end', APR)], V, 'symbols before the truncation, length and padding; known finding on padding bits'),
p('V09', 'Acceptable streams are accepted and broken ones rejected',
  'A stream that conforms to Vorbis I is accepted; packets that a decoder could not use are rejected with an error. The faults documented as repairable are accepted by the release build and rejected by the developer build.',
  ['inputs', 'configurations'], 'for every header packet, conformant or with any one or more fields out of range, and audio packets', 'The tests have no invalid header.',
  [SHP, CHP, IDC, OPT, HT], [('validation in the parsers', SHP), ('rejection of incomplete and overfull codes', HT)], V, 'the specification\'s parsers decide'),
p('V10', 'Errors name the fault that the stream has',
  'The error returned for a rejected stream identifies the first fault in the stream: its kind, and the numbers it is about (the offending value or index, the size of the packet that ended too soon), in the error and in its message. Header packets out of order report the expected and the actual type.',
  ['inputs'], 'for every rejected stream', 'No test looks at an error.',
  [OPT, SHP, CHP, IDC], [('error types', OPT)], V, 'the specification names the first fault'),
p('V11', 'The two passes work for every order of calls and packets',
  'Analysis accepts the three headers and any number of audio packets and reports the block size of each; optimization then accepts the same packets again, headers first, and reports the same block sizes. Calls out of this order fail as documented and never corrupt the result. Optimizers do not affect each other, in whatever order their calls come and in whatever threads.',
  ['histories', 'schedules'], 'for every sequence of calls on the optimizer, alone and among others', 'Tests only drive the optimizer through the remuxer.',
  [OPT], [('states of the optimizer', OPT)], V, 'the specification is the state machine of calls'),
p('V12', 'No input makes the library panic, crash, hang or exhaust memory',
  'For any bytes and any settings the library returns a result or an error, in time and memory in proportion to what the format requires. It never panics, also in builds with overflow checks.',
  ['inputs', 'configurations'], 'for every byte string given as file or as packets', 'Tests feed seven good files.',
  [MOD, GRAN, OPT, SHP, CHP, CHC, APC, HT, HCL, CBM, BP, VB], [('checked arithmetic and bounded reads', BP), ('limits in the setup parser', SHP)], 'Session',
  'mutated and generated inputs against the session machine, whose only outcomes are results and errors'),
p('O01', 'What is written is a well-formed Ogg file',
  'The output consists of Ogg pages only, with right checksums, consecutive page numbers from zero, the first and only the first page of each stream marked as its beginning and the last as its end, continuation flags that match, and no cut packet. Streams follow one another, with the identification header alone on the first page and audio starting on a page of its own.',
  ['inputs'], 'for every accepted file', 'Tests parse the output of seven files with one reader, which ignores most of this.',
  [MOD], [('writing packets to pages', MOD)], G, 'the specification parses the output byte by byte'),
p('O02', 'Pages are filled: no more pages than the packets need',
  'Audio packets are packed in the fewest pages that the format allows after the headers.',
  ['inputs'], 'for every accepted file', 'No test counts pages.', [MOD], [('page packing', MOD)], G, 'the least number of pages is computed from packet sizes'),
p('O03', 'Granule positions are those of the samples that packets complete',
  'Every page that completes an audio packet carries the number of samples decoded up to its last complete packet, whatever wrong granule positions the source has in the middle of the stream; header pages carry zero, and pages that complete no packet carry -1.',
  ['inputs'], 'for every accepted stream, with any granule positions', 'Fixtures have right granule positions, so copying them would pass.',
  [GRAN, MOD], [('granule position computation', GRAN)], G, 'the specification recomputes granule positions from block sizes'),
p('O04', 'A start offset of the stream is kept, or removed if asked',
  'When the first audio page of the source implies that the stream starts at a sample other than zero, before or after, all granule positions written keep that offset. With the option to ignore it the stream starts at sample zero. A page that is both the first and the last of several packets can only trim the end.',
  ['inputs', 'configurations'], 'for every stream with a start offset of either sign, any page layout, and both settings', 'One fixture has an offset; its sign, size and page layout are fixed.',
  [GRAN, MOD], [('first page offset', GRAN)], G, 'as O03, over start offsets; known finding on early pages'),
p('O05', 'Samples that the last page trims stay trimmed',
  'When the granule position of the last page of the source trims samples of the last packet, the stream written is trimmed at the same sample. A last granule position that is not one of those samples, before the packet or after it, is replaced with the untrimmed end.',
  ['inputs'], 'for every stream and every end granule position', 'Two fixtures trim the end by some amount.', [GRAN, MOD], [('last granule position', GRAN)], G, 'as O03, for the last packet'),
p('O06', 'Serials: unique, as configured, and reproducible',
  'Streams get distinct serials. Without randomization these are consecutive from the configured offset; with it they are random, and SOURCE_DATE_EPOCH makes them a function of its value, the file and the offset, an invalid value being an error, unless the library is built without that feature, which then ignores the variable.',
  ['inputs', 'configurations'], 'for all files, offsets and environment values', 'Tests check one value of SOURCE_DATE_EPOCH.', [MOD], [('serial generation', MOD)], G, 'relations between runs in fresh processes'),
p('O07', 'Streams that are not Vorbis are dropped, files without Vorbis rejected',
  'Logical streams that are not Vorbis are left out, wherever they occur, and do not affect the Vorbis streams; a stream with a bad Vorbis identification header is not left out but an error. A file without a Vorbis stream is rejected unless the option is off, in which case the output is empty.',
  ['inputs', 'configurations'], 'for every mixture of streams', 'No fixture has other streams.', [MOD], [('stream detection', MOD)], G, 'the specification demultiplexes the source'),
p('O08', 'Chained files: every link is optimized on its own and in order',
  'Every Vorbis link of a chained file is written, in order, each with its own headers, codes, serial, page numbers and granule positions, exactly as if it were alone.',
  ['inputs'], 'for every chain of links', 'One fixture has two links.', [MOD], [('stream states by serial', MOD)], G, 'the specification runs one optimizer per link'),
p('O09', 'Concurrently multiplexed Vorbis streams are rejected',
  'A file in which a Vorbis stream begins before the previous one ended is rejected with the error for that, and everything else is not. An earlier Vorbis stream that goes on after another one began counts as not ended, whatever its pages say.',
  ['inputs'], 'for every interleaving of pages of several streams', 'No test has one.', [MOD], [('current stream tracking', MOD)], G, 'enumerated and random interleavings'),
p('O10', 'Page checksums are verified exactly when asked',
  'With verification on, a file with a page whose checksum is wrong is rejected. With it off, wrong checksums make no difference to the result.',
  ['inputs', 'configurations'], 'for every file and page damaged', 'No test has a damaged page.', [MOD], [('page reader configuration', MOD)], G, 'acceptance by the specification\'s reader, and equality'),
p('O11', 'Faults of reader and writer are reported, rejected files give no output',
  'An error of the source or the sink, at any point, makes the operation fail with that error, with nothing but a prefix of the right output written. A file that is rejected leaves no output at all.',
  ['fault_sequences', 'inputs'], 'for every point at which reading, seeking or writing can fail, and every rejected file', 'Tests use in-memory files that cannot fail.',
  [MOD], [('two passes: analysis before output', MOD)], G, 'a fault at every read, seek and write'),
p('O12', 'The result depends on contents and settings only',
  'The output is the same whatever sizes the reads and writes come in, wherever the source is positioned in its file, however often and after whatever other files the same remuxer runs, whatever remuxers run in other threads meanwhile, and in every build profile, whether messages are logged or not.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'], 'for all partial reads and writes, interruptions, start positions and histories of runs', 'Tests run a remuxer once on whole files.',
  [MOD, OPT], [('seek back to the start', MOD)], G, 'relations between runs'),
p('O13', 'Manglers are asked as documented and obeyed',
  'A stream mangler is asked for every sample rate, bitrate, serial, page end and granule position, in order and with the documented arguments, and its answers, and only they, change the output.',
  ['inputs', 'configurations'], 'for every file and every answers of the mangler', 'No test has a mangler.', [MOD, MANG, GRAN], [('calls to the mangler', MOD)], G, 'the log of questions and the output are compared with the specification\'s'),
p('O14', 'Optimizing twice changes nothing more',
  'A file that was optimized is accepted again and, with the same settings, the result is the same file, if the first run left its comments as they were.',
  ['inputs'], 'for every accepted file', 'No test runs twice.', [MOD, GRAN, SHR, HCL], [('canonical output', SHR)], G, 'relation between runs'),
p('B01', 'Bitpacking: values are laid out and read back exactly',
  'Values written with any widths from 0 to the maximum are laid out in the Vorbis bit order, excess bits of a value do not leak, and a reader returns the same values with the sign extended; alignment and finalization pad with zeros.',
  ['inputs', 'histories', 'configurations'], 'for every sequence of writes or reads of every width and value, every build', 'Round trips of a few sequences.',
  [BP], [('bit buffer', BP)], B, 'the bits written so far are state; every operation is an action'),
p('B02', 'Bitpacking: ends of data and sink errors are reported',
  'Reading past the end of the data fails with the end of file error and a value is returned exactly when all its bits are there. Errors of the sink are reported by the operation that meets them, and the bits before are in the sink.',
  ['fault_sequences', 'inputs'], 'for every sequence of operations and every size of data or capacity of the sink', 'One end of file case.', [BP], [('error propagation', BP)], B, 'as B01, with every limit'),
p('B03', 'Vorbis float32 numbers are packed to the nearest and unpacked exactly',
  'Unpacking gives the exact value of the 32 bits of every Vorbis float; packing a finite number gives the nearest number of the format. Both hold with and without the standard library.',
  ['inputs', 'configurations'], 'for all 2^32 packed values and all finite numbers', 'Sixteen or so sampled values.', [BP], [('float32 conversion', BP)], B, 'exact integer arithmetic on mantissas'),
p('C01', 'The program does what the library does for its options',
  'For every combination of command line options, in every spelling, the output is that of the library with the settings that the help text documents, written to the file or the standard output and nothing else to the latter. Help, version, quiet and verbose do what they say.',
  ['configurations', 'inputs'], 'for all argument lists and files', 'No test runs the program.', [CLI], [('argument handling', CLI)], C, 'the program is a state machine over its arguments; the library result is recorded separately'),
p('C02', 'The program reports every failure',
  'Bad arguments, files that cannot be opened, read or written, and rejected input make the program exit with a failure status and a message on standard error, which is that of the library for rejected input and names an option whose value is wrong, with nothing on standard output that could be taken for the result. Arguments that cannot be parsed leave the output file alone.',
  ['configurations', 'inputs', 'fault_sequences'], 'for all argument lists, files and failing outputs', 'No test runs the program.', [CLI], [('error handling', CLI)], C, 'as C01'),
p('C03', 'The JavaScript binding does what the library does with its defaults',
  'An object of the JavaScript binding optimizes every file it is given as the library does with its default settings, which are those documented, call after call; where the library fails, it throws the text of its error, stays usable, and never panics.',
  ['inputs', 'histories'], 'for all sequences of files given to one object', 'No test uses the binding, whose crate feature is not even built by them.', [JS, MOD], [('remux of the binding', JS), ('default settings', MOD)], 'Binding',
  'the binding is compiled for this machine, not for WebAssembly; its answers are compared with those of the library in a process with the same history, and with the machine of the remuxer'),
]

LEVEL = {V: 'model_checking', 'Binding': 'model_checking', G: 'model_checking', B: 'model_checking', C: 'model_checking', 'Session': 'model_checking'}
WHAT = {
    V: 'TLA+ specification of the Vorbis optimizer (spec/VorbisSetup, VorbisAudio, VorbisComment, Huffman, VorbisTrace), TLC; every call of generated and recorded sessions with the real optimizer, in strict and lenient builds, must be a step of it',
    G: 'TLA+ specification of the remuxer (spec/OggPages, OggRemux, OggTrace), TLC; recorded runs of the real remuxer must be behaviours of it',
    B: 'TLA+ specification of the bit packer (spec/Bitpack), TLC; recorded operation sequences of the real crate in three builds must be behaviours of it',
    C: 'TLA+ specification of the command line program (spec/Cli), TLC; recorded runs of the real program must be behaviours of it',
    'Binding': 'TLA+ machine of the binding (spec/Binding) and of the remuxer (spec/OggRemux), TLC; recorded histories of calls of the real binding must be behaviours of both',
    'Session': 'TLA+ machine of sessions (spec/Session), TLC; recorded outcomes of mutated inputs on the real library must be steps of it',
}


def main():
    with open(VERIF + '/properties.jsonl', 'w') as f:
        for q in PROPS:
            f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'],
                                    quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
                                    anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']],
                                                 hook_needed=None))) + '\n')
    checks = [dict(property=q['id'], quick_cmd='python3 tools/check.py %s quick' % q['id'],
                   thorough_cmd='python3 tools/check.py %s thorough' % q['id'], technique=WHAT[q['spec']], level=LEVEL[q['spec']],
                   level_note='TLC decides every recorded run exhaustively; the runs are sampled: ' + q['note']) for q in PROPS]
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[])
    json.dump(m, open(VERIF + '/MANIFEST.json', 'w'), indent=1)
    for q in PROPS:
        assert len(q['title']) <= 80, q['id']
        for x in q['files']:
            assert os.path.exists('/repo/' + x), x
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(VERIF + '/properties.jsonl'):
        jsonschema.validate(json.loads(line), s)


if __name__ == '__main__':
    main()
