#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
E='edwards25519/'
BE=[E+'field.go',E+'field_radix51.go',E+'field_mul64.go',E+'field_generic.go']
prop('C01','Field arithmetic is exact for every reachable operand',
 'In both field backends (the default 64-bit one and the one selected by the forcegeneric build tag), adding, subtracting, negating, multiplying, squaring and double-squaring elements of GF(2^255-19) gives exactly the mathematical result modulo 2^255-19. This holds for every internal representation of the operands that the library itself can produce, without any machine-integer overflow changing the result. The result is again a representation on which every later operation is exact.',
 ['inputs','configurations'],'every pair of operand representations within the limb ranges that occur in the library; both field backends; every receiver/operand aliasing',
 'The tests multiply a few thousand random, freshly decoded (fully reduced) operands; carries that overflow only for limbs near the top of their range, or only in one backend, are never sampled.',
 BE,[('limb products with carry propagation','edwards25519/field_mul64.go:Mul,Square,DoubledSquare; edwards25519/field_generic.go:Mul,square,setReduced'),('lazy add/sub/neg with head-room',E+'field_radix51.go:add,sub,Neg; '+E+'field_generic.go:add,sub,Neg')],
 ['FieldElement.Add/Sub/Neg/Mul/Square/DoubledSquare'],[dict(name='limbs',meaning='5x51-bit unsigned or 10x25.5-bit signed limbs of a field element',where='FieldElement')])
prop('C02','Field encoding, decoding, comparison and selection are exact',
 'Encoding a field element yields the unique little-endian 32 bytes of its value reduced below 2^255-19, and decoding 32 bytes yields their value with the top bit ignored; big-integer conversion and the constants zero, one and the square root of -1 agree. Sign, zero, one and equality tests and absolute value depend only on that value, however the element is represented. Conditional assignment copies exactly when its flag is 1 and leaves the target unchanged when it is 0; none of the reading operations change the element they read.',
 ['inputs','configurations'],'every representation within the reachable limb ranges, every 32-byte string; both backends',
 'Values such as p, p+1, 2p-1 or values whose reduction borrows through every limb have probability about 2^-250 in random tests.',
 BE,[('final reduction',E+'field_radix51.go:setReduced; '+E+'field_generic.go:BytesInto'),('mask-based selection','FieldElement.ConditionalSet'),('IsNegativeI/IsNonZeroI/EqualsI over the canonical bytes',E+'field.go')],
 ['FieldElement.Bytes/BytesInto/SetBytes/BigInt/SetBigInt/IsNegativeI/IsNonZeroI/IsOneI/Equals/EqualsI/Abs/ConditionalSet'])
prop('C03','Field inversion and inverse square roots are right for every element',
 'The inverse of every non-zero field element times that element is 1, and the inverse of 0 is 0. The inverse square root r of a satisfies a*r^2=1 for every non-zero square a and is 0 for a=0; the variant that reports squareness returns 1 with a*r^2=1 exactly for the non-zero squares, and otherwise returns 0 with i*a*r^2=1 (or r=0 when a=0). The square root of every square is the non-negative root.',
 ['inputs','configurations'],'every field element, square or not, zero included; both backends; receiver may alias the operand',
 'Tests sample random elements; zero, the special constants and the four fourth-root-of-unity cases are only hit by chance and not for every branch.',
 [E+'field.go']+BE[1:],[('addition chains for p-2 and (p-5)/8',E+'field.go:Inverse,Exp22523'),('fourth-root-of-unity correction',E+'field.go:InvSqrt,InvSqrtI,Sqrt')],
 ['FieldElement.Inverse/Exp22523/InvSqrt/InvSqrtI/Sqrt'])
prop('C04','Scalar arithmetic is exact modulo the group order and stays canonical',
 'For all scalars a, b, c below l, adding, subtracting, negating, multiplying, squaring, multiply-adding and multiply-subtracting give exactly the mathematical result modulo l. Every result is the unique representative below l.',
 ['inputs'],'all canonical scalars a, b, c (3 x 252.x bits); every aliasing of receiver and operands',
 'A wrong carry in the reduction shows only when an intermediate limb or the result falls in a window of relative size 2^-100 or less; tests use about a thousand random scalars.',
 ['scalar.go'],[('21-bit limb product and two-stage reduction','scalar.go:Mul,Square,MulAdd,MulSub,reduceAfterMul'),('borrow-masked conditional add of l','scalar.go:Sub,Add,Neg')],['Scalar.Add/Sub/Neg/Mul/Square/MulAdd/MulSub'],
 [dict(name='scalar words',meaning='eight 32-bit little-endian words, value below l',where='scalar.go:Scalar')])
prop('C05','Scalars decode, reduce and encode exactly',
 'Reducing 64 bytes yields their little-endian value modulo l, decoding 32 bytes yields their value modulo l with the top three bits ignored, and strict decoding accepts exactly the encodings of numbers below l and leaves the receiver untouched otherwise. Setting from integers and big integers (negative and huge ones included), hash derivation and unmarshalling agree with these. Encoding returns the 32 little-endian bytes of the canonical value, so decoding an encoding is the identity.',
 ['inputs'],'all 2^512 wide inputs, all 2^256 narrow inputs, all big integers up to 600 bits in absolute value, all uint64',
 'The boundary around l, 2l and values that make the last reduction step negative have negligible probability; the tests try random buffers and a short list around l.',
 ['scalar.go'],[('wide reduction','scalar.go:SetReduced'),('single conditional subtraction','scalar.go:SetBytes,SetBytesStrict'),('byte packing','scalar.go:BytesInto')],
 ['Scalar.SetReduced/SetBytes/SetBytesStrict/SetUint64/SetBigInt/BigInt/Bytes/Derive/DeriveShort/Rand/UnmarshalBinary/MarshalBinary'])
prop('C06','Scalar inversion is right for every non-zero scalar',
 'For every scalar a with 0 < a < l the inverse times a equals 1 modulo l, and the inverse of 0 is 0. This also holds when the receiver is the operand itself.',
 ['inputs'],'all canonical scalars','The addition chain is exercised on random scalars only; a chain that is right except for special operands cannot be excluded by sampling.',
 ['scalar.go'],[('addition chain for l-2','scalar.go:Inverse')],['Scalar.Inverse'])
prop('C07','Scalar comparison and selection are exact',
 'Two canonical scalars compare equal exactly when they are the same number modulo l, and the non-zero test is 1 exactly for non-zero scalars. Conditional assignment copies all of the source when the flag is 1 and leaves the target unchanged when it is 0; setting to zero, one or another scalar has exactly that effect.',
 ['inputs'],'all pairs of canonical scalars, both flag values','Scalars that differ in a single bit of a single word are never sampled for all 253 bits.',
 ['scalar.go'],[('difference and or-fold','scalar.go:EqualsI,Equals,IsNonZeroI'),('mask selection','scalar.go:ConditionalSet')],['Scalar.Equals/EqualsI/IsNonZeroI/ConditionalSet/Set/SetZero/SetOne'])
prop('C08','Point addition, subtraction, doubling and negation follow the group law',
 'For all valid points (every representation, the neutral element, small-order components and equal or opposite operands included) sum, difference, double and negation are the points prescribed by the Edwards25519 group law, and the result is again a valid point. The mixed operations with precomputed and projective forms and the conversions between the forms agree with it, conditional assignment selects exactly one of the points, and the provided constants (zero, base point, torsion points) are the documented ones.',
 ['inputs','configurations'],'all pairs of points on the curve in all projective representations; both backends; every aliasing',
 'Tests add random points in a handful of representations; exceptional pairs (P+P, P-P, torsion, neutral element) in each formula, and representations coming out of decoding, are not covered exhaustively.',
 [E+'curve.go',E+'table.go','ristretto.go'],[('complete twisted Edwards formulas',E+'curve.go:AddExtended,SubExtended,DoubleExtended,DoubleProjective,SetCompleted; '+E+'table.go:AddExtendedNiels,SubExtendedNiels,SetExtended')],
 ['Point.Add/Sub/Double/Neg/Set/SetZero/SetBase/ConditionalSet'],[dict(name='(X:Y:Z:T)',meaning='extended coordinates with XY=ZT on -x^2+y^2=1+d x^2 y^2',where=E+'curve.go:ExtendedPoint')])
prop('C09','Point equality is equality of Ristretto group elements',
 'Two points compare equal exactly when they represent the same Ristretto group element, that is when they differ by a point of order dividing four. The answer does not depend on the projective representation or on the coset representative, is symmetric, and equals equality of the encodings.',
 ['inputs','configurations'],'all pairs of even points in all representations; both backends','Tests compare random points with their four torsion translates; coordinates equal to zero, and unequal points that agree in one cross product, are not sampled.',
 [E+'curve.go','ristretto.go'],[('x1*y2==x2*y1 or x1*x2==y1*y2',E+'curve.go:RistrettoEqualsI')],['Point.Equals/EqualsI'])
prop('C10','Point encoding is the canonical Ristretto255 encoding',
 'Encoding a point gives the 32 bytes prescribed by RFC 9496 for its group element: it does not depend on the projective representation nor on which of the four equivalent curve points represents the element. The encoding is a canonical non-negative field element that decodes back to an equal point.',
 ['inputs','configurations'],'all even points in all representations, neutral element and its coset included; both backends','Encodings are compared on sampled points; the rotation and sign branches combined with zero coordinates and each coset member cannot be enumerated.',
 [E+'curve.go','ristretto.go'],[('inverse square root, rotation and sign selection',E+'curve.go:RistrettoInto')],['Point.Bytes/BytesInto/MarshalBinary'])
prop('C11','Point decoding accepts exactly the canonical Ristretto255 encodings',
 'Decoding 32 bytes succeeds exactly when RFC 9496 decoding does: it rejects values that are not below the field prime, negative ones, non-squares, negative products and zero y. When it succeeds the resulting point is a valid point whose encoding is the input; when it fails it reports failure and leaves the receiver cleared (all coordinates zero), not a value derived from the rejected input.',
 ['inputs','configurations'],'all 2^256 byte strings; both backends','Each rejection reason is tested with a few vectors only; strings that fail exactly one check (for instance only the last) are rare and the 19 non-canonical field values cannot be found by sampling.',
 [E+'curve.go','ristretto.go'],[('canonical check, sign checks, square check',E+'curve.go:SetRistretto')],['Point.SetBytes/UnmarshalBinary'])
prop('C12','Every scalar multiplication computes s times the point',
 'For every canonical scalar s and every valid point q, the constant-time, the variable-time, the table-based and the fixed-base scalar multiplication all yield exactly s*q. The result does not depend on previous contents of the receiver, and the built-in table for the base point holds exactly the multiples of the base point it should.',
 ['inputs','configurations'],'all scalars below l (2^252.x), all valid points; both backends; receiver may be the operand',
 'Digit recodings fail only for special digit patterns (carry chains through runs of ones, a final carry, zero and maximal digits); random scalars hit neither long chains nor the top window, and zero, one and l-1 are barely tested.',
 [E+'curve.go',E+'table.go',E+'vartime.go',E+'table_radix51.go',E+'table_generic.go','ristretto.go'],
 [('signed 5-bit windows',E+'curve.go:computeScalarWindow5,ScalarMult'),('signed 4-bit windows and comb table',E+'table.go:computeScalarWindow4,ScalarMult,Compute,selectPoint'),('width-5 NAF',E+'vartime.go:computeScalar5NAF,VarTimeScalarMult'),('precomputed constants',E+'table_radix51.go, '+E+'table_generic.go')],
 ['Point.ScalarMult/PublicScalarMult/ScalarMultTable/PublicScalarMultTable/ScalarMultBase/PublicScalarMultBase, ScalarMultTable.Compute'])
prop('C13','Hashing to points follows the Ristretto Elligator map',
 'For every 32-byte string the Elligator method yields the group element that the RFC 9496 MAP function assigns to the string with its top bit ignored. Deriving a point from data hashes it with SHA-512 and maps the first half, the dalek-compatible derivation adds the images of both halves, and a random point is the image of 32 bytes of the system random source; the result is always a valid even point.',
 ['inputs','configurations'],'all 2^256 strings, all hash values; both backends','A handful of vectors is tested; inputs for which the ratio is zero or non-square or s is zero, or with non-canonical field values, are not.',
 [E+'elligator.go','ristretto.go'],[('Elligator 2 via the Jacobi quartic',E+'elligator.go:SetRistrettoElligator2,SetJacobiQuartic'),('hash plumbing','ristretto.go:Derive,DeriveDalek,Rand,SetElligator')],['Point.SetElligator/Derive/DeriveDalek/Rand'])
prop('C14','Lizard decoding inverts Lizard encoding',
 'Encoding 16 bytes with Lizard maps the field element built from the bytes and their SHA-256 checksum. The inverse Elligator computation returns, for every valid point, exactly the non-negative field elements that map to it (up to repetition for the neutral element), so Lizard decoding returns the data whenever exactly one preimage carries a correct checksum and an error otherwise, never wrong data. Decoding leaves the point unchanged, and the exported ToJacobiQuarticRistretto returns points of the Jacobi quartic lying over the four representatives (repeating one for (0,-1)), SetJacobiQuartic maps a quartic point to its Edwards point and Dual negates both coordinates.',
 ['inputs','configurations'],'all 16-byte strings, all valid points; both backends','Tests decode random data; points with zero coordinates, preimages from each of the eight branches, and points with no preimage or several are not enumerated.',
 [E+'elligator.go','ristretto.go'],[('eight candidate preimages',E+'elligator.go:RistrettoElligator2Inverse,ToJacobiQuarticRistretto,elligator2Inverse'),('checksum selection','ristretto.go:SetLizard,LizardInto')],['Point.SetLizard/Lizard/LizardInto'])
prop('C15','Marshalling is total, strict about length and round-trips',
 'Unmarshalling a point or scalar never panics, whatever the bytes: it returns an error unless the input is a 32-byte binary string or the text encoding of one (unpadded URL-safe base64 as the standard library decodes it, that is with line breaks skipped, and for points also exactly 64 hexadecimal digits), and then behaves exactly as decoding those 32 bytes. Marshalling produces exactly these encodings, so that unmarshalling the output of marshalling yields an equal value.',
 ['inputs'],'all byte and text inputs of length 0 to 100 (and any length for the binary form)','Tests marshal valid values and a few malformed ones; text of every length and content is out of their reach.',
 ['ristretto.go','scalar.go'],[('length checks and base64/hex decoding','ristretto.go:UnmarshalBinary,UnmarshalText,textToBuf; scalar.go:UnmarshalBinary,UnmarshalText'),('base64 encoding','ristretto.go:MarshalText; scalar.go:MarshalText')],
 ['Point/Scalar MarshalBinary/UnmarshalBinary/MarshalText/UnmarshalText/String'])
prop('C16','Operands are never modified and may alias the receiver',
 'Every operation gives the same result when the receiver is one of its operands or when operands coincide as when they are distinct variables holding the same values. Apart from the documented destination nothing is written: operands, shared tables, constants and all other variables keep their values, so that concurrent operations may share operands, and the result never depends on the previous contents of the destination (except for ConditionalSet, which may keep them, and for a destination whose input was rejected).',
 ['inputs','programs','schedules'],'every public operation of points, scalars and field elements, every aliasing pattern of receiver and operands, all values; both backends','Aliasing patterns multiply with operations and backends; tests exercise a few of them and never check that operands stay bit-for-bit unchanged.',
 ['ristretto.go','scalar.go',E+'field.go',E+'curve.go',E+'table.go',E+'vartime.go',E+'elligator.go'],[('temporaries before writing the receiver','all methods with pointer receivers')],['all public operations'])
prop('C17','Secret-dependent operations are constant-time',
 'Apart from the operations documented as variable-time (the Public scalar multiplications, big.Int conversions, String) and the text encodings, no operation on scalars, field elements or points branches on, or indexes memory by, the value of its operands in its source code; only the outcome that a validating operation reports to its caller (accepted or rejected) may influence the control flow. The sequence of branches taken and elements accessed is thus the same for all secret inputs of the same shape and outcome.',
 ['inputs','configurations'],'all values of secret operands; both backends','Timing leaks are invisible to functional tests; a branch taken for a rare value only cannot be seen by timing experiments either.',
 ['scalar.go',E+'field.go',E+'curve.go',E+'table.go',E+'elligator.go','ristretto.go'],[('mask-based selection instead of branches','ConditionalSet, selectPoint, equal15/equal30/negative')],['every operation not documented as variable-time'])
prop('C18','Random scalars and points are exact images of fresh randomness',
 'Each call that generates a random scalar obtains 64 new bytes from the system random source and returns their little-endian value modulo l (so that the bias is negligible), and each call that generates a random point obtains 32 new bytes and returns their Elligator image. No call reuses bytes that an earlier call obtained, and a call never returns normally when the random source fails.',
 ['inputs','histories','fault_sequences'],'all values of the random bytes, failures of the source at every call, sequences of up to five calls; both backends','Randomness cannot be sampled for exactness: tests only see that results look different; a truncated, reused or partly zero buffer or an ignored failure passes them.',
 ['scalar.go','ristretto.go'],[('random bytes reach the reduction and the map','scalar.go:Rand; ristretto.go:Rand')],['Scalar.Rand, Point.Rand'])
prop('C19','The C reference implementation agrees with the specification',
 'In package cref, unpacking a field element yields its 32 bytes with the top bit ignored modulo p and unpacking a scalar yields its bytes modulo 2^253 and then l; packing field elements and scalars yields the unique canonical bytes, packing a point its canonical Ristretto encoding, and Elligator the point of the Ristretto map, for every input. Unpacking a point accepts exactly the strings whose field element (top bit ignored) is the Ristretto encoding of a point, then returns 0 and that point, and otherwise returns -1 with all coordinates zero. Add, Double, Neg and ScalarMult compute the group operations exactly for all valid points and scalars, the destination may be an operand, other operands keep their values, and results may be used again in any sequence of these operations.',
 ['inputs','histories'],'all 2^256 strings; all valid points in all representations the package produces; all unpacked scalars; the functions reachable from the exported Go API of cref','The Go tests compare cref and the Go code on random inputs only and so trust cref blindly: rare carries, rejected encodings (y = 0, negative or non-square values), zeroing after rejection, scalars between l and 2^253 and special digits are never met.',
 ['cref/cref.c','cref/cref.go'],[('field arithmetic on ten limbs','cref/cref.c:fe25519_*'),('decoding, encoding and map','cref/cref.c:group_ge_unpack,group_ge_pack,group_ge_elligator'),('group operations and 5-bit windows','cref/cref.c:group_ge_add,group_ge_double,group_ge_negate,group_ge_scalarmult,scalar_window5,choose_t'),('scalar reduction','cref/cref.c:group_scalar_unpack,group_scalar_pack')],
 ['cref.Fe25519.Pack/Unpack, cref.GroupScalar.Pack/Unpack, cref.GroupGe.Pack/Unpack/Elligator/Neg/Add/Double/ScalarMult/X/Y/Z/T'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,sch); assert p['statement'].count('. ')<=2,(p['id'])
print(len(P))
