#!/usr/bin/env python3
# writes MANIFEST.json from the table below
import json
T = 'contract-based deductive verification (Verus/Z3) of the crate\'s functions, extracted mechanically on every run'
base = 'All functions the property rests on carry contracts and every obligation of the crate is discharged without bounds on each run. Trusted: Verus/Z3, the extraction (DESIGN.md section 2), assumed contracts of bytes/byteorder/chrono/uuid/hashbrown/string/std (contracts/00-model.vc), derived trait impls. A refused obligation is replayed by searching the compiled crate for a failing input; that search only supplements. '
N = {
 'P01': 'Encoders produce enc(v), decoders accept exactly drest/dval, both specified independently from AMQP 1.0; that drest/dval invert enc for every value, whatever follows, is proved as lemmas over these contracts (gen/rt.py: primitives, collections, variants, composites, unions, frames, messages).',
 'P02': 'encoded_size == |enc(v)| and encode appends exactly enc(v), for every encodable type. Assumes the encoding fits 32-bit lengths.',
 'P03': 'Every index, slice, arithmetic operation and unwrap of the decoders is proved safe. Stack depth is outside the logic: the deep-nesting overflow is a recorded finding.',
 'P04': 'The remainder of every decoder equals the specified suffix for all inputs.',
 'P05': 'Encoders and decoders of collections and variants against independent specifications. Hash maps are modelled by their insertion log and their iteration sequence.',
 'P06': 'Field layout, defaults, mandatory fields and both descriptors per composite, from a table of the AMQP 1.0 types (gen/amqp.json).',
 'P07': 'Bytes written and accepted are compared with a transcription of AMQP 1.0 part 1 section 1.6.',
 'P08': 'One decode call of AmqpCodec against a state machine specification over buffer and decoder state; splitting independence follows from the per-call contract (frames_any_partition), and any sequence of written frames is found again in any chunks (amqp_frames_stream, sasl_frames_stream).',
 'P09': 'Frame header bytes written, header checks and skipped extended header.',
 'P10': 'All eight-byte headers.',
 'P11': 'Section order and descriptors, decode as a left fold over sections; that decoding inverts encoding is the lemmas in_message_rt and out_message_rt.',
 'P12': 'Type invariant: the size cache is 0 or the length of the current encoding; proved over every public operation. The cache cell is modelled.',
 'P13': 'All 2^64 millisecond values and every time point, on an assumed contract of chrono 0.4.45.',
 'P14': 'Hand-written eq/ord/hash/borrow of strings and symbols; derived implementations are what the compiler generates over them.',
 'P15': 'Every with_capacity argument of the decoders is bounded by the bytes available. Growth by pushing zero-width array elements is a recorded finding.',
 'P16': 'r is Ok implies the input is in the specified language, for every decoder.',
 'P17': 'Every buffer write is within the room reserved by the reported size.',
 'P19': 'Tables of wire values (gen/amqp.json) against encode, decode and try_from of each restricted type.',
 'P20': 'Postconditions with frame conditions on every builder and accessor.',
}
checks = [{'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
           'technique': T, 'level': 'proof', 'level_note': base + n} for p, n in sorted(N.items())]
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': 'P18', 'reason': 'The generator runs at build time under feature from-spec with a handlebars template and specification documents (dependencies and inputs absent here); the property compares two texts for one configuration and has no function contract to discharge.'}],
     'notes': 'No hooks: the crate is verified by extraction from its sources, the replay harness uses its public interface. Known findings and repairs: known-findings.txt.'}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
