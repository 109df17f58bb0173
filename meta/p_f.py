import runpy, os
globals().update({k: v for k, v in runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/p_a.py').items() if k in ('P', 'ENUM', 'NOTE')})
F = 'crates/byte-fmt/src/'; C = 'crates/cryptography/src/'; I = 'crates/argon2-identity/src/'
PROPS = [
P('F01', 'Byte fields keep their value through text, expression and list forms',
  'A fixed or variable width byte field gives the same bytes back from every one of its forms: escaped text, shortened text, expression text, expression tree, delimited list, base64 and what a serialiser stores, and its short forms print nothing that reads back as another value. Fitting a shorter value pads it at the front, a longer one is refused, and delimited lists are refused. Base64 reading accepts exactly the unpadded url-safe text of the width of the field, and as numbers and in ordering fields behave as big endian integers.',
  ['inputs'], 'all byte values over a structured alphabet to a bounded length in eleven widths, every byte in every position of longer values, and all short base64 texts',
  'The tests convert a couple of values; padding, escapes and widths only interact on unusual ones.',
  [F+'lib.rs'], [('AB', F+'lib.rs'), ('B64', F+'lib.rs')], ENUM.format('values, widths and texts'), NOTE),
P('F02', 'Fixed byte order integers convert, compare and compute exactly',
  'Integers stored in big or little endian bytes give the same value through bytes, text, expressions, lists and a serialiser in every width, and conversion between byte orders keeps the value. They compare by value, bitwise operations act on the value, and addition, subtraction and successor saturate at the ends. Text that is out of range and byte strings of the wrong size are refused, except that short little endian bytes are extended with zeros.',
  ['inputs'], 'every 16 bit value, values at every bit and byte boundary of the wider integers, all pairs of them, and all short texts and byte strings',
  'One test converts the value 24.',
  [F+'endian_types.rs'], [('endian_number', F+'endian_types.rs')], ENUM.format('values and pairs'), NOTE),
P('K01', 'A password encrypted key opens with its password only',
  'An encrypted key opens with exactly the password it was encrypted with and gives back the key, whatever the key, cost and password bytes; every other password is refused as wrong. The text names the public key without the password, is printable, and encrypting the same key again gives the same text. Damaged, cut, mixed or hand made texts are refused with an error and never open as another key.',
  ['inputs', 'fault_sequences'], 'all pairs of passwords of an adversarial set with all keys, every single character change of an encrypted key, every exchange of parts between two encrypted keys, and all short texts of its grammar',
  'The tests encrypt one key with one password and try one wrong password.',
  [I+'lib.rs', C+'lib.rs'], [('encrypt / decrypt', I+'lib.rs'), ('pubkey', I+'lib.rs'), ('decode_string', I+'lib.rs')],
  'exhaustive enumeration of keys, passwords and single faults in the stored text on the real code', NOTE),
P('K02', 'A signature is valid for its key and hash only, and hashes ignore cuts',
  'A signature made with a key verifies under that public key and hash, and is refused under any other key or hash and after any single bit change; values that are no valid key, point or number are refused without a crash. Signing is deterministic, never shares a nonce between hashes, keys made from different randomness differ, and printing a key does not show the secret. Hashing a list of segments depends only on the concatenated bytes, and both follow their published standards.',
  ['inputs', 'fault_sequences'], 'all keys with all hashes of edge value sets, every bit of signature, hash and public key, every edge value in each place, every way to cut short inputs and cuts at the block sizes',
  'There is no test of signing; refusal has to hold for every change.',
  [C+'lib.rs'], [('sign_hash', C+'lib.rs'), ('validate_signature', C+'lib.rs'), ('hash_segments', C+'lib.rs')],
  'exhaustive enumeration of keys, hashes, single bit faults and segmentations on the real code', NOTE),
]
