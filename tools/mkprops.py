#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as Python for line-wrapped prose)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
T='lib/src/Texture.cpp'; TH='lib/include/cuttlefish/Texture.h'; C='lib/src/Converter.cpp'
S='lib/src/StandardConverter.cpp'; SH='lib/src/StandardConverter.h'; I='lib/src/Image.cpp'
HF='lib/src/HalfFloat.h'; M='tool/main.cpp'; CL='tool/CommandLine.cpp'

p('C01','Advertised format support matches what conversion can encode',
 'For every pixel format and value type, the support query answers yes exactly when converting a complete linear texture to that pair produces encoded data. A pair the query rejects is refused by conversion and leaves the texture unconverted.',
 ['inputs','configurations'],'All format x type pairs (and all pairs under each codec switch compiled in).',
 'Tests enumerate the pairs they were written for; a pair that is advertised but has no encoder (or the reverse) is only visible when that pair is converted.',
 [T,C,TH],[('isFormatValid',T),('createConverter',C),('Texture::convert',T)],['Texture::isFormatValid','Texture::convert'])
p('C02','Per-format geometry and encoded size are those the format defines',
 'For every format the reported block width, block height and bytes per block (and minimum size) and whether it stores alpha are those of the published format, and unknown formats report zero. For every supported uncompressed pair, the encoder emits exactly that many bytes for each pixel of a level, so the level size is width x height x bytes per pixel.',
 ['inputs'],'All formats, all types, all level sizes.',
 'Tests compare sizes on one 16x16 surface; the relation has to hold for every width, height and pair.',
 [T,S,SH,C],[('blockWidth/blockHeight/blockSize tables',T),('StandardConverter::process',SH)],['Texture::dataSize','Texture::blockSize'])
p('C03','Each channel lands in the bits the format name defines',
 'For every uncompressed format, the encoded bits of a pixel are composed of the pixel\'s red, green, blue and alpha channels at exactly the positions and widths given by the format\'s name, with no channel swapped, dropped, duplicated or overlapping another. Packed formats list channels from the most significant bit down; array formats list them in memory order.',
 ['inputs'],'All pixel values and all uncompressed format/type pairs.',
 'Existing tests convert black images only and never look at encoded bits.',
 [S,SH,C,HF],[('encoder process() functions',S),('createConverter dispatch',C)],['Texture::data'])
p('C04','Channel values are clamped and rounded, never wrapped',
 'Encoding a channel to an integer representation yields the nearest representable code after clamping to the representation\'s range ([0,1] scaled by the maximum for unsigned-normalised, [-1,1] scaled by the signed maximum for signed-normalised, the integer range for integer types). No float is ever converted to an integer it cannot represent, whatever its value.',
 ['inputs'],'All float channel values, including negatives, huge values, infinities and NaN, for all integer-coded pairs.',
 'Every float value is an input; tests use 0.0 only, where clamping, scaling and rounding all coincide.',
 [S,SH],[('UNormConverter/SNormConverter/IntConverter/UIntConverter process()',SH),('packed encoders',S)],['Texture::data'])
p('C05','Encoding work items cover every pixel exactly once',
 'For every level size, the set of work items of an uncompressed encoder reads each source pixel exactly once, in row-major order from the first row, and writes each output element exactly once at the same row-major position, never outside the level\'s buffer. Different work items write disjoint parts of the output.',
 ['inputs','schedules'],'All level widths and heights, including ones that are not multiples of the batch size; all encoders.',
 'Tests use sizes that are multiples of the batch; a tail error shows only for other sizes.',
 [S,SH],[('StandardConverter jobsX/jobsY/process',SH)],['Texture::data'])
p('C06','Threaded conversion is deterministic and complete',
 'Conversion yields the same encoded bytes for every thread count and every interleaving: each work item is handed to exactly one worker, all workers have finished before a surface\'s result is published or its source released, and the result is stored at the same level, depth and face as its source. Workers share no mutable state other than the job counter and their disjoint output slices.',
 ['schedules','inputs'],'All interleavings, thread counts and surface counts.',
 'A test run sees one schedule; missing joins or shared scratch state are only visible under specific interleavings.',
 [C,'lib/src/Converter.h',S],[('Converter::convert worker loop',C),('ThreadData',C)],['Texture::data'])
p('T01','Out-of-range and unconverted queries are refused safely',
 'For every texture state and every level, depth and face argument, size, image and data queries on an uninitialised texture, an out-of-range level or depth, or a face the texture does not have return zero, an empty image or null without touching the texture\'s storage. In-range queries answer for exactly the requested level, depth and face.',
 ['inputs','histories'],'All argument values (32-bit range) and all texture states.',
 'Tests probe a few boundary values on a few textures; the guard has to hold for every index.',
 [T],[('guards at the head of each accessor',T)],['Texture::width','Texture::getImage','Texture::data','Texture::dataSize'])
p('T02','Accepted surfaces match the level and the working format',
 'Setting a surface succeeds only if its width and height equal the level\'s, and the level, depth and face exist; otherwise nothing is changed. A stored surface is always converted to four-channel float in the texture\'s colour space and is stored at exactly the requested level, depth and face.',
 ['inputs','histories'],'All images, indices and texture shapes, for all four ways of setting a surface.',
 'Tests reject a handful of wrong sizes; the stored format and colour space for each overload and input format are not observed.',
 [T],[('setImage overloads',T)],['Texture::setImage','Texture::getImage'])
p('T03','Encoded data always matches the texture\'s current shape',
 'At any point in any history of calls, the encoded data a texture exposes has exactly one entry for each of its current levels, depths and faces: an operation that changes the shape discards previously encoded data. A query for encoded data therefore never reads outside what was encoded.',
 ['histories'],'All sequences of initialise, set, generate mipmaps, convert, copy and reset.',
 'Requires specific call histories (for example regenerating mipmaps after conversion) that no test performs.',
 [T,C],[('generateMipmaps, initialize, reset, convert',T)],['Texture::data','Texture::dataSize','Texture::converted'])
p('T04','Mip chains have the documented geometry and lineage',
 'A texture has the kind, size and colour space it was constructed or initialised with and reports them, has at least one and never more levels than halving its largest mipmapped dimension allows, level k measures max(1, size >> k) in each mipmapped dimension, and array layers keep their count. Every generated level image is resized to its own level\'s size from the previous level of the same layer and face, or from the caller\'s replacement for exactly that level, layer and face, and ends up in the texture\'s colour space. Missing base images, empty replacements and replacements for only part of a level of a volume are refused, leaving the texture as it was.',
 ['inputs','histories'],'All dimensions, sizes, requested level counts and custom replacement sets.',
 'Tests generate chains for one small texture per dimension; lineage across faces and layers with replacements is not examined.',
 [T],[('maxMipmapLevels, width/height/depth, generateMipmaps',T)],['Texture::generateMipmaps','Texture::getImage'])
p('T05','Conversion is gated on completeness, support and colour space',
 'Conversion succeeds only on a texture whose every surface has been provided, to a supported pair, and to a pair with a native sRGB representation when the texture is sRGB. A refused conversion reports failure and leaves no data encoded for the refused pair; a successful one records exactly the requested format, type, alpha mode and colour mask.',
 ['inputs','histories'],'All texture states and all format/type/colour-space combinations.',
 'Tests exercise a few refusals; the gate must hold on every path for every combination.',
 [T],[('Texture::convert, imagesComplete, hasNativeSRGB',T)],['Texture::convert','Texture::converted'])
p('T06','Copies carry every attribute',
 'Copying or moving, by construction or assignment, a texture, image or custom mip replacement yields an object equal in every attribute to the source, whether the target was empty or not. No attribute is left at its old or default value.',
 ['inputs','histories'],'All source and target states of every copyable public class.',
 'Tests copy freshly built objects with default attribute values, for which a forgotten attribute is invisible.',
 [T,TH,I],[('copy/move constructors and assignment operators',T)],['Texture::operator=','CustomMipImage::operator='])
W='files'
p('T07','Value-range adjustment maps normalised images onto the type\'s range',
 'Adjusting an image for a texture type changes it only if its original format is normalised and the type is signed-normalised or an integer type. Then the image becomes float with the same number of channels, and every channel of every pixel, exactly once, becomes 2v-1 (signed-normalised) or the integer nearest to v scaled to the precision the original format has for that channel (unsigned), less half that range (signed). Every other image is left as it was.',
 ['inputs'],'All image formats, original formats, types and image sizes; all values of the normalised range.',
 'The tests adjust one 16x16 black or constant image per kind; a wrong channel stride or per-channel precision (RGB565) shows only for other values and sizes.',
 [T,TH],[('Texture::adjustImageValueRange',T)],['Texture::adjustImageValueRange'])
p('T08','Generated volume levels average slices in linear space',
 'When mipmaps of a 3D texture are generated, each slice of the next level is, at every pixel and channel, the normalised weighted mean of the slices of the previous level at the same pixel. With the box filter the weights are equal for the slices whose centre lies within half a new slice (at least half an old one) of the new slice\'s centre; with every other filter they fall linearly to 0 at one new slice (at least one old one). Colours of sRGB textures are averaged in linear space and converted back; alpha is averaged as it is. The new slices have the level\'s size and the texture\'s colour space.',
 ['inputs'],'All numbers of slices, sizes of the level, filters, colour spaces and pixel values.',
 'Tests halve volumes of few equal-size slices in one colour space; odd counts, volumes wider than deep and weights at the border are not sampled.',
 [T],[('generateMips3d',T)],['Texture::generateMipmaps'])
p('S01','DDS files describe the texture they contain',
 'For every DDS-supported texture, the header\'s magic, structure sizes, dimensions, pitch or linear size, level count, array count, cube and volume flags, alpha mode and format code are those the DDS specification defines for the texture\'s shape, format, type, alpha mode and colour space.',
 ['inputs'],'All supported format/type/colour-space/alpha pairs and all shapes (1D/2D/3D/cube, array or not, any level count).',
 'Tests check only the total size of a file; a wrong format code or flag is invisible to them.',
 ['lib/src/SaveDds.cpp'],[('getDdsFormat, saveDds',"lib/src/SaveDds.cpp")],['Texture::save'])
p('S02','KTX files describe the texture they contain',
 'For every KTX-supported texture, the header\'s identifier, endianness mark, GL type, type size, format, internal format, base format, dimensions, array count, face count and level count are those the KTX and OpenGL specifications define for the texture\'s shape, format, type and colour space.',
 ['inputs'],'All supported format/type/colour-space pairs and all shapes.',
 'Tests check only the total size of a file; header fields are never compared.',
 ['lib/src/SaveKtx.cpp'],[('getFormatInfo, saveKtx','lib/src/SaveKtx.cpp')],['Texture::save'])
p('S03','PVR files describe the texture they contain',
 'For every PVR-supported texture, the header\'s version, pre-multiplied flag, pixel format code, colour space, channel type, dimensions, surface, face and level counts and metadata blocks (keys, sizes and contents) are those the PVR specification defines for the texture\'s shape, format, type, alpha mode and colour space.',
 ['inputs'],'All supported format/type/colour-space/alpha combinations and all shapes.',
 'Tests check only the total size of a file; header fields are never compared.',
 ['lib/src/SavePvr.cpp'],[('getPixelFormat, getChannelType, savePvr','lib/src/SavePvr.cpp')],['Texture::save'])
p('S04','Every encoded surface is written once, complete and in file order',
 'Each container file contains the encoded data of every level, depth slice and face exactly once, byte for byte and in the order the container defines (DDS: layer, face, level, slice; KTX and PVR: level, layer, face, slice). Length fields and padding in between agree with what follows them.',
 ['inputs'],'All shapes and level counts for every container.',
 'Tests use one-level, one-face textures, for which every order gives the same file.',
 ['lib/src/SaveDds.cpp','lib/src/SaveKtx.cpp','lib/src/SavePvr.cpp'],[('payload loops','lib/src/Save*.cpp')],['Texture::save'])
p('S05','Saving reports success only if everything was written',
 'If any write to, or the final flush of, the destination fails, saving a texture reports a write error; success is reported only after every byte was handed over and accepted. Saving an unconverted texture, or to an unknown container, is refused with the corresponding result.',
 ['fault_sequences','inputs'],'A failure at any individual write or at close, for every container and both destinations.',
 'No test injects a write failure.',
 [T,'lib/src/SaveDds.cpp','lib/src/SaveKtx.cpp','lib/src/SavePvr.cpp','lib/src/Shared.h'],[('write() result checks','lib/src/Save*.cpp'),('Texture::save',T)],['Texture::save'])
p('S06','Container support query matches what saving accepts and is documented',
 'For every format, type and container, the container support query answers yes exactly when saving a converted texture of that pair is not refused as unsupported, and the formats refused by each container are those the documentation lists.',
 ['inputs'],'All format x type x container triples.',
 'Tests compare the two answers only for pairs that can be converted in the test build.',
 [T,'lib/src/SaveDds.cpp','lib/src/SaveKtx.cpp','lib/src/SavePvr.cpp','README.md'],[('isFormatValid(format,type,fileType)',T),('isValidForDds/Ktx/Pvr','lib/src/Save*.cpp')],['Texture::isFormatValid','Texture::save'])
p('S07','File type is chosen by extension and dispatched to that container',
 'Saving or querying with automatic file type selects DDS, KTX or PVR exactly when the file name ends in that extension, ignoring case, and otherwise no container; an explicit or selected type is always written by its own container writer. Names shorter than an extension are never read out of bounds.',
 ['inputs'],'All file names, including empty ones.',
 'Tests use a few well formed names.',
 [T],[('fileType, save',T)],['Texture::fileType','Texture::save'])
p('I01','Reading a pixel returns what writing it stored, channel for channel',
 'For every image format, the code that writes a pixel and the code that reads it address the same storage for each channel, with the same layout and inverse scaling; channels the format does not store read back as zero colour or full alpha. Integer formats store the nearest code after clamping to their range; out-of-range values and NaN never wrap. No channel is swapped or lost.',
 ['inputs'],'All formats and all channel values.',
 'Tests write one colour per format.',
 [I],[('getPixelImpl / setPixelImpl',I)],['Image::getPixel','Image::setPixel'])
p('I02','Pixel and scanline access never leaves the image',
 'For every image, including an empty one, a pixel or scanline request outside the image is refused and touches nothing, and an inside request addresses exactly that row (top row first) and column.',
 ['inputs','histories'],'All coordinates and all image states.',
 'Tests probe a few coordinates.',
 [I],[('getPixel/setPixel/scanline guards',I)],['Image::getPixel','Image::setPixel','Image::scanline'])
p('I03','Colour operations respect colour space and leave alpha alone',
 'Colour-space conversion applies the transfer function of the right direction to red, green and blue only and records the new colour space; greyscale, pre-multiplication and resizing of sRGB images never change alpha through a transfer function. An operation on an image already in the requested colour space changes nothing.',
 ['inputs'],'All pixel values, formats and colour spaces.',
 'Tests use one colour per case.',
 [I,'lib/include/cuttlefish/Color.h'],[('changeColorSpace, grayscale, preMultiplyAlpha',I)],['Image::changeColorSpace','Image::grayscale','Image::preMultiplyAlpha'])
p('I04','Flips, rotations and swizzles only permute',
 'Flipping and rotating by multiples of a right angle map every pixel to the geometrically defined position, losing and duplicating none for any size including odd ones, and swizzling assigns each output channel exactly the selected input channel or constant of the same pixel. No such operation alters a channel value.',
 ['inputs'],'All image sizes, formats and selector combinations.',
 'Tests use one small image per operation.',
 [I],[('flipHorizontal, flipVertical, rotate, swizzle',I)],['Image::flipHorizontal','Image::rotate','Image::swizzle'])
p('I05','Every image bitmap has exactly one owner and is released once',
 'On every path, each bitmap, memory stream or handle obtained from the imaging library is either released exactly once or handed to exactly one owning image; nothing is leaked, released twice or used after release, also when an operation fails half-way.',
 ['inputs','fault_sequences','histories'],'All paths through image loading, saving and processing, including failing allocations.',
 'Failure paths of the imaging library are never taken by tests, and leaks do not fail them.',
 [I],[('Image::Impl ownership',I)],['Image operations'])
p('I06','Operations on empty images are refused',
 'Every operation on an empty (uninitialised, reset or moved-from) image reports failure or returns an empty result without dereferencing anything.',
 ['inputs','histories'],'All public operations on all empty states.',
 'Tests call a few operations on an empty image.',
 [I],[('null checks at the head of each operation',I)],['Image operations'])
p('I07','Bit masks of an image are those of its format',
 'For every image, the red, green, blue and alpha masks it reports are the masks of the underlying bitmap for that very channel, and channel availability follows from the format.',
 ['inputs'],'All formats.',
 'Only default formats are checked, and masks are not compared per channel.',
 [I],[('Image::Impl constructor',I)],['Image::redMask','Image::blueMask'])
p('I08','Image loading and saving report failures',
 'Loading fails (yielding an empty image) when the source cannot be opened, recognised or decoded, and saving reports success only when the encoder and the destination accepted all data; what is read or written is exactly the named file, the given memory or the given stream, also by the constructors that load. The stream callbacks handed to the imaging library report the number of whole items transferred and every failure to transfer or seek.',
 ['fault_sequences','inputs'],'All failing sources and destinations.',
 'No test injects I/O failures.',
 [I],[('Image::load, Image::save',I)],['Image::load','Image::save'])
p('I09','An image\'s recorded format and size describe its bitmap',
 'Whatever made an image - creating, loading, copying, converting, resizing, rotating, deriving a normal map - the pixel format, width and height it reports are those of the bitmap it holds, so that reading its pixels interprets the storage as what it is. Creating (by constructor or initialize), converting and copying give exactly the format and size asked for (or none), and loading a bitmap of a kind no format has converts it to a format that keeps its colour and transparency.',
 ['inputs'],'All formats, all conversions between them, all kinds of bitmap a file can hold, all sizes.',
 'Tests convert and load a few formats; a format recorded over another storage shows as garbage pixels only for that pair.',
 [I],[('Image::Impl::create, getFormat, getFreeImageFormat',I),('convert, resize, rotate',I)],['Image::format','Image::width','Image::getPixel'])
p('I10','Converting the pixel format keeps every pixel and the channels the new format has',
 'Converting an image to another pixel format keeps every pixel at its place and, for every pair of formats, gives each channel of the new format the value of that channel to the precision of the two formats: no channel is swapped, lost or scaled differently, and values outside of 0 to 1 are limited only where the new format is normalised or cannot hold them. Greyscale formats receive the luminance when greyscale conversion is asked for, computed in linear space whatever the colour space of the image, and the red channel otherwise; alpha is kept where both have it and is 1 where only the new one has. (Grey 8-bit images converted to integer formats are excepted: nothing says whether integers are normalised.)',
 ['inputs'],'All pairs of formats, both colour spaces, with and without greyscale conversion, all pixel values and positions.',
 'Tests convert one colour between some of the 272 pairs; a swap or limit in one pair, or only in one colour space, is not seen.',
 [I],[('Image::convert, getPixelImpl, setPixelImpl, setPixelNoGrayscaleImpl',I)],['Image::convert'])
p('I11','Normal maps hold the unit normals of the height field',
 'A normal map made from an image has, at every pixel, the normalised vector (left minus right, below minus above, 1) of the red channels of the neighbouring pixels, the differences multiplied by the height and divided by the distance between the two neighbours. At a border the neighbour is the pixel of the opposite border if wrapping is asked for on that axis, otherwise the pixel itself at distance 1; wrapping one axis does not wrap the other. Components lie between 0 and 1 (0.5 for 0) unless signs are kept, alpha is 1.',
 ['inputs'],'All image sizes, formats, options, heights and pixel values.',
 'Tests compare one small image for two option sets; borders, single-pixel sizes and options on one axis only are not sampled.',
 [I],[('Image::createNormalMap',I)],['Image::createNormalMap'])
p('I12','Resized images are filter-weighted means of the original, taken in linear space',
 'Resizing gives an image of exactly the requested size and of the format and colour space of the original. An sRGB image is filtered in linear space: changed to linear, resized to the requested size with the requested filter, changed back. Formats the imaging library resizes are handed to it with the requested width, height and filter; for Int16, Int32, UInt32, Double and Complex every pixel is the normalised mean of the source pixels in reach, weighted by the box (reach half a destination pixel, at least half a source pixel) or by the tent (reach one destination pixel, at least one source pixel). Any other filter for these formats, or a size of 0, gives no image.',
 ['inputs'],'All image sizes, target sizes, formats, filters, colour spaces and pixel values.',
 'Tests resize one image to half its size per filter and compare few pixels; enlarging, uneven ratios and one-sided changes are not sampled.',
 [I],[('Image::resize',I)],['Image::resize'])
p('U01','Command-line keywords select exactly the setting they name',
 'Every documented command-line keyword for format, value type, alpha mode, quality, filter, cube face, container, rotation, image kind or size is accepted ignoring case and selects exactly the setting of that name; undocumented words are rejected.',
 ['inputs'],'All keyword strings of every option.',
 'Tests run the tool on a few command lines and look only at the exit code.',
 [CL,'tool/CommandLine.h','README.md'],[('formatMap and keyword comparisons',CL)],['cuttlefish --help','cuttlefish command line'])
p('U02','The tool applies exactly the requested image operations, in a fixed order',
 'For every combination of settings, each image goes once through exactly the requested operations with the requested parameters, in the order: load in the image colour space, change to the texture colour space, resize, rotate, greyscale, normal map, flips, swizzle, pre-multiplication, range adjustment; operations not requested leave no trace. Every image and custom mip then reaches its own face, level and layer, and the texture is mipmapped, converted and saved with the requested parameters.',
 ['inputs','configurations'],'All combinations of processing options.',
 'Tests check only exit codes.',
 [M],[('loadAndProcessImage',M)],['tool output'])
p('U03','Every failure of the tool ends in a non-zero exit',
 'If parsing, loading, processing, mipmap generation, conversion or saving fails for any input, the tool exits with a non-zero status; it exits with zero only after the requested output was saved (or for the informational options).',
 ['fault_sequences','inputs'],'All failing steps.',
 'Tests cover a few failures (parse, load, save path).',
 [M,CL],[('main, loadImages, saveTexture',M)],['tool exit status'])
p('U04','Command-line parsing never reads past the arguments',
 'For every argument list, however truncated, the parser reads only existing arguments, and an option with missing parameters is reported as an error.',
 ['inputs'],'All argument vectors.',
 'Tests truncate a few options.',
 [CL],[('bounds checks before argv accesses',CL)],['tool exit status'])
p('U05','Parsed options are checked for consistency before use',
 'Inputs that cannot form the requested texture (wrong number of images for the kind of texture, custom mip levels, layers or faces outside the texture, a format/type/container combination that is not supported) are rejected before anything is converted - what depends on the sizes of the images right after they are loaded - and index parsing never converts malformed, empty, negative or too large text to an index.',
 ['inputs'],'All option combinations.',
 'Tests cover a few combinations.',
 [CL,M],[('validate',CL),('loadImages',M)],['tool exit status'])
p('U06','List files name exactly the inputs their lines give',
 'Every non-empty line of an image list file becomes exactly one input image, in the order of the file, and every non-empty line of a custom mip list file becomes exactly one custom mip with the level, and the layer, face and replacement it gives or their defaults, the rest of the line - blanks included - being the path. This holds for both kinds of line ends, empty lines, a last line that is not ended, and any bytes in a path. A list that cannot be opened, or a line that is no custom mip or repeats one, is refused.',
 ['inputs'],'All contents of list files.',
 'No test reads a list file.',
 [CL],[('readImageList, readCustomMipList',CL),('readNextToken, readUntilChar',CL)],['the images and custom mips the parser hands on'])
p('N01','Resampling by the imaging library and greyscale weights match the reference formulas',
 'Resizing with each filter in the formats the imaging library resizes gives values within rounding error of the mathematical filter definitions.',
 ['inputs'],'All pixel values and sizes.',
 'Numerical results over all inputs.',
 [I,T],[('Image::resize, generateMips3d, createNormalMap',I)],['Image::resize','Image::createNormalMap'])
p('N02','Block-compressed output decodes close to the source',
 'Data produced by the BC, ETC/EAC, ASTC and PVRTC encoders decodes with a conforming decoder to an image within the codec\'s error bound of the source.',
 ['inputs'],'All images, qualities and block formats.',
 'The codecs are third-party and disabled in the tested build.',
 ['lib/src/S3tcConverter.cpp','lib/src/EtcConverter.cpp','lib/src/AstcConverter.cpp','lib/src/PvrtcConverter.cpp'],[('codec adapters','lib/src/*Converter.cpp')],['Texture::data'])
p('N03','Half and small-float encodings are the nearest representable value',
 'Converting a float to a half, 11/10-bit or shared-exponent float gives the nearest representable value, with infinities, NaN and out-of-range values handled as the format defines.',
 ['inputs'],'All 2^32 float values.',
 'Numerical results over all inputs.',
 [HF,'lib/src/HalfFloat.cpp',S],[('glm packing helpers, F16C path',HF)],['Texture::data'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
