GENERAL=" Every path of the encoded functions within the bounds is explored with the inputs as solver variables. Outside the bounds nothing is claimed. Trusted: the interpreter of Go SSA in engine/ (cross-checked against compiled code with -x), its models of runtime and library functions listed in DESIGN.md, and the solvers."
NA={}
NOTE={
"C01":"All 43 modes plus every other mode number; all pairs of NRGBA64 colours; no bound.",
"C02":"All modes and all pairs of NRGBA64 colours; no bound.",
"C03":"All pairs of NRGBA64 colours.",
"C04":"All pairs of NRGBA64 colours for 15 modes.",
"C05":"All pairs of colours of the property.",
"C06":"All pairs of colours and every draw of math/rand.Int31n, modelled as an arbitrary value in its range; the comparison of two alphas is made for the same draw.",
"C07":"All NRGBA64 colours. HSV round trip and all greys, alphas, values and lightnesses are decided; of the HSL round trip some cases stay undecided within the quick time limit and are reported as such in the evidence.",
"C08":"All field values of 15 colour types.",
"C09":"All palettes of up to 3 (thorough: 4) opaque 8-bit entries, all colours.",
"C10":"Images up to 3x2 (thorough 4x3) at any position within +-2^62, all contents, all points, all colours.",
"C11":"Images of sizes 0x0 and 3x2 (thorough also 2x3), any position, any requested rectangle; nested windows of 2x1 (thorough 2x2) images; every point.",
"C12":"Images up to 3x2 (thorough 4x3), all contents, every sub-image.",
"C13":"Up to 3 layers (thorough: 4) of any position within +-2^61 and any composite mode, one nested group, any point; palette images separately.",
"C14":"Layers and layered images of up to 2 (thorough 3) layers, one nested group, masks and text, positions within +-2^61, any requested rectangle, any point.",
"C15":"All colours, mask values and transparencies; masks at any position.",
"C16":"Sequences of up to 3 reads with arbitrary short reads and faults of the stream; two reads at the same time with every schedule.",
"C19":"Sizes of up to 3 (thorough 6) digits, 6 attribute layouts, 5 document forms; any text of up to 3 (thorough 5) printable characters as a size; arbitrary mimetype contents. The zip container is modelled as a list of members.",
"C17":"One symbolic leaf of any place in a 120x50 canvas and 6 kinds of picture; 8 tree shapes of up to 4 leaves and nesting 3 with symbolic group offsets; names of up to 2 (thorough 3) characters plus multi-byte ones; all 256 opacities, all 20 modes. The zip container is modelled as a list of members and the PNG codec as lossless; XML writing and reading are executed.",
"C18":"Documents of up to 3 elements with 11 attribute variants, every cut of a document, any 5 (thorough 6) printable characters as a position and 2 (3) as an opacity, any 3 (4) ASCII bytes at 5 places of a document, members missing, wrong or unreadable. The zip container is modelled as a list of members, an undecodable picture as arbitrary bytes.",
"C20":"All picture sizes up to 1023x1023 (thorough 4095x4095), every thumbnail pixel. Floating point is reasoned about exactly as fractions of powers of two where that is valid.",
"C30":"ORA only: four images, a failure of any operation on the archive from any point on; the XCF encoder is not covered.",
}
