from . import adjust, conv, derive, image, imgio, made, owner, save, thread, texture, tool, toollist, toolrun
CCP = 'Conditional constant propagation over normalised LLVM IR compiled from the current source.'
DF = 'Value-flow and guard analysis over normalised LLVM IR compiled from the current source.'
CHECKS = {
    'C01': (conv.c01, CCP),
    'C02': (conv.c02, CCP + ' Address analysis of every store of an encoder.'),
    'C03': (conv.c03, 'Bit-provenance dataflow from every stored value back to the source channels.'),
    'C04': (conv.c04, 'Interval and clamp-shape analysis of every float-to-integer conversion.'),
    'C05': (conv.c05, 'Index normal forms, induction variables and guard reachability of every encoder loop.'),
    'C06': (thread.c06, 'Path, loop-completeness and effect analysis of the worker code over normalised LLVM IR compiled from the current source.'),
    'T01': (texture.t01, 'Guard reachability and value-flow of every query, under facts assuming an argument in or out of range, over normalised LLVM IR compiled from the current source.'),
    'T02': (texture.t02, 'Guard reachability, value-flow and must-pass analysis of every overload, under facts assuming acceptable or unacceptable arguments, over normalised LLVM IR compiled from the current source.'),
    'T03': (texture.t03, 'Must-pass analysis of every write to the shape, and index-domain and size-term analysis of every list resize, over normalised LLVM IR compiled from the current source.'),
    'T04': (texture.t04, 'Constant propagation of the level limit, and reaching-definition, index-domain and size-term analysis of every level image, over normalised LLVM IR compiled from the current source.'),
    'T05': (texture.t05, 'Guard reachability and last-write analysis of convert under facts fixing each answer it depends on, scan completeness of imagesComplete, constant propagation of the sRGB table, over normalised LLVM IR compiled from the current source.'),
    'T06': (lambda ctx: (texture.t06(ctx), owner.keeps_itself(ctx)), 'Member-wise transfer analysis (must-pass, byte ranges) of every copy and move operation under facts fixing whether source and target are empty, over normalised LLVM IR compiled from the current source.'),
    'T07': (adjust.t07, 'Constant propagation along the loops of the adjustment for every image format, original format and type at fixed sizes, and evaluation of the stored expressions, over normalised LLVM IR compiled from the current source.'),
    'T08': (derive.t08, 'Constant propagation along the loops over slices and pixels for volumes of fixed size, and evaluation of the stored expressions against the weights of the filter, over normalised LLVM IR compiled from the current source.'),
    'S01': (save.s01, 'Constant propagation through the header writer for every format and shape, reading the fields back from the bytes handed to the stream, over normalised LLVM IR compiled from the current source.'),
    'S02': (save.s02, 'Constant propagation through the header writer for every format and shape, reading the fields back from the bytes handed to the stream, over normalised LLVM IR compiled from the current source.'),
    'S03': (save.s03, 'Constant propagation through the header writer for every format and shape, reading the fields back from the bytes handed to the stream, over normalised LLVM IR compiled from the current source.'),
    'S04': (save.s04, 'Loop-nest and induction-variable analysis of the payload loops with iteration-space enumeration for small shapes, closed forms of accumulated lengths, over normalised LLVM IR compiled from the current source.'),
    'S05': (save.s05, 'Typestate analysis of the stream\'s error state: path-sensitive reachability of returns after every write, flush and open, over normalised LLVM IR compiled from the current source.'),
    'S06': (save.s06, CCP),
    'S07': (save.s07, 'Conditional constant propagation of the characters at the end of the name, and value-flow of the file type, over normalised LLVM IR compiled from the current source.'),
    'I01': (image.i01, 'Constant propagation of the format through getPixel() and setPixel(); every stored and read cell compared with the storage model of the format, scaling decided for every cell value or by monotonicity and both sides of every rounding boundary, over normalised LLVM IR compiled from the current source.'),
    'I02': (image.i02, 'Guard reachability under facts assuming a coordinate outside the image, and bound facts of every row and column index of every operation, over normalised LLVM IR compiled from the current source.'),
    'I03': (image.i03, 'Iteration-space enumeration of every pixel loop and comparison of the written value with the required transfer function on sample values, must-pass ordering of the colour-space changes around scaling, over normalised LLVM IR compiled from the current source.'),
    'I04': (image.i04, 'Iteration-space enumeration of the pixel loops against the geometric map and the channel selection, value-flow of the library calls, over normalised LLVM IR compiled from the current source.'),
    'I05': (owner.i05, 'Path-sensitive ownership typestate of every bitmap, memory stream and image implementation, states merged by ownership, methods summarised at their calls, over normalised LLVM IR compiled from the current source.'),
    'I06': (owner.i06, 'Path-sensitive typestate of every operation started on an empty image, states merged by ownership, methods summarised at their calls, over normalised LLVM IR compiled from the current source.'),
    'I07': (made.i07, 'Constant propagation through everything that makes an image and through the mask and shift queries, composed, with a model of the bitmap kinds the imaging library answers, over normalised LLVM IR compiled from the current source.'),
    'I08': (imgio.i08, 'Constant propagation of every outcome of the imaging library through load and save, typestate of the destination stream, and value-flow of the stream callbacks, over normalised LLVM IR compiled from the current source.'),
    'I09': (made.i09, 'Constant propagation of bitmap kind and size through every operation that makes an image, with a model of the kinds the imaging library answers, over normalised LLVM IR compiled from the current source.'),
    'I10': (derive.i10, 'Constant propagation along the pixel loops of the conversion for every pair of formats at fixed sizes, evaluation of the stored expressions, and a model of what the imaging library does to values, over normalised LLVM IR compiled from the current source.'),
    'I11': (derive.i11, 'Constant propagation along the pixel loops of the normal map for every option at fixed sizes, and evaluation of the stored expressions against the slopes of the height field, over normalised LLVM IR compiled from the current source.'),
    'I12': (derive.i12, 'Constant propagation along the resizing of images of fixed sizes for every format and filter, evaluation of the stored expressions against filter-weighted means, a model of the imaging library, and the lineage of the images along the path for sRGB.'),
    'U01': (tool.u01, 'Constant propagation of each command line through the peeled parser and its validation, with models of the string and container library, over normalised LLVM IR compiled from the current source.'),
    'U02': (toolrun.u02, 'Constant propagation of every combination of settings through the peeled tool, collecting the chain of operations of each image and the arguments of each call, with models of the string and container library, over normalised LLVM IR compiled from the current source.'),
    'U03': (toolrun.u03, 'Constant propagation of every failing step through the peeled tool, collecting the exit status and what was called, with models of the string and container library, over normalised LLVM IR compiled from the current source.'),
    'U04': (tool.u04, 'Constant propagation of command lines cut off at every argument through the peeled parser, collecting every read of an argument or character, with models of the string and container library, over normalised LLVM IR compiled from the current source.'),
    'U05': (tool.u05, 'Constant propagation of inconsistent and consistent command lines through the peeled parser and its validation, with models of the string and container library, over normalised LLVM IR compiled from the current source.'),
    'U06': (toollist.u06, 'Constant propagation along the path through the parser and the reading of list files of fixed contents, with models of the stream, string and container library, over normalised LLVM IR compiled from the current source.'),
}
