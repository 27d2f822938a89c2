#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
NT="No test of the repository runs this code with more than a handful of fixed values: the two stable tests only decode seven fixed ORA files. "
p("C01","Compositing two colours is total and yields a valid colour",
  "For every composite mode value (including values that name no mode) and every pair of colours, composing them returns a non-nil colour and never panics. The colour returned is a legal Go colour: its alpha-premultiplied red, green and blue never exceed its alpha, and alpha never exceeds 0xffff.",
  ["inputs"],"every 32-bit mode value, every pair of 16-bit-per-channel colours of every colour type the library or image/color hands out",
  NT+"2^128 colour pairs per mode; divisions by alpha-derived denominators only trap for particular alphas.",
  ["composite.go","lcolor/hsl.go","internal/nrgba.go"],[("Composite.Composite dispatch","composite.go"),("blend denominator","composite.go:blend")],["Composite.Composite result .RGBA()"])
p("C02","A fully transparent top pixel changes nothing",
  "Composing a fully transparent colour on top of any bottom colour gives back exactly the bottom colour (equal alpha-premultiplied components), for every composite mode except the Porter-Duff destination-in and destination-atop operators. In Normal mode a fully opaque top replaces the bottom exactly, and any top over a fully transparent bottom is returned exactly.",
  ["inputs"],"every mode, every bottom colour, every transparent top; every opaque top and every transparent bottom for Normal",
  NT+"The identity must hold for all 2^64 bottoms, and rounding errors show only at particular values.",
  ["composite.go"],[("blend","composite.go:blend"),("compositeNormal","composite.go"),("compositeHue and siblings","composite.go")],["Composite.Composite"])
p("C03","Normal mode is source-over compositing",
  "In Normal mode the resulting alpha equals a1+a2-a1*a2 (alphas as fractions of 0xffff) within one unit of 1/65535 and is never below either input alpha. Each non-premultiplied channel of the result lies between the two input channels up to two units, and equals the source-over mixture of the two inputs with weight top-alpha/result-alpha within three units.",
  ["inputs"],"all 16-bit channels and alphas of both colours",
  NT+"Rounding and overflow of 32-bit products depend on all four 16-bit operands.",
  ["composite.go"],[("compositeNormal, blend","composite.go")],["CompositeNormal.Composite"])
p("C04","Separable blend modes follow their formula on each channel separately",
  "For the channel-wise modes (Multiply, Screen, Overlay, Difference, Addition, Subtract, Darken, Lighten, Divide, Dodge, Burn, Hard Light, Soft Light, Grain Extract, Grain Merge) each result channel depends only on the same channel of the two inputs and on the alphas, the same function being used for red, green and blue. With both inputs opaque that function equals the documented XCF blend formula, with fractions clamped to [0,1], within three units of 1/65535 (the half used by grain extract/merge may be 0x7fff or 0x8000, and 0/0 counts as 0). With partial alphas a1 (bottom) and a2 (top) the result is the mixture of the bottom and the formula with weight m/(1-(1-a1)(1-m)) for the formula, m being the smaller alpha, within three units. The result keeps the bottom's alpha.",
  ["inputs"],"all modes listed, all 16-bit channel values and alphas",
  NT+"Formulas with clamps and divisions break only on one side of thresholds that samples miss.",
  ["composite.go"],[("per-mode functions and dispatch","composite.go")],["Composite.Composite"])
p("C05","Hue, saturation, colour, value and luminosity modes swap only their component",
  "With both colours opaque, Value mode gives a colour whose largest channel equals the top's largest channel, Saturation and Hue keep the bottom's largest channel (Hue also keeps its smallest channel to within rounding), and Color/Luminosity keep the lightness of bottom/top respectively to within rounding of a few units. The hue (which channels are largest, middle and smallest, to within a few units) is the top's in Hue and Color mode and the bottom's in the other three. A grey top leaves the bottom unchanged in Hue mode and turns it grey in Saturation and Color mode. With partial alphas the result is the mixture of the bottom and that colour with the weight the channel-wise modes use, and the bottom's alpha is always kept.",
  ["inputs"],"all pairs of opaque colours, 16 bits per channel; all partial alphas for the mixture",
  NT+"Six hue sextants with integer rounding at their edges.",
  ["composite.go","lcolor/hsl.go"],[("compositeHue, compositeSaturation, compositeColor, compositeValue","composite.go"),("HSV/HSL conversion","lcolor/hsl.go")],["Composite.Composite"])
p("C06","Dissolve shows either the bottom or the opaque top, never anything else",
  "In Dissolve mode the result is, for every random draw, either the bottom colour unchanged or the top colour made fully opaque. A fully opaque top is always shown, a fully transparent top is never shown, and raising the top's alpha never turns a shown top into the bottom for the same draw.",
  ["inputs","schedules"],"all colours and every value the random source can draw",
  "A test would have to control the random source; none does.",
  ["composite.go"],[("compositeDissolve","composite.go")],["CompositeDissolve.Composite"])
p("C07","HSV and HSL conversions are inverse to RGB",
  "Converting any colour to HSV or HSL and back to RGB restores alpha exactly and red, green and blue within a small rounding error (HSV: 16 units of 65535, HSL: 24 units); greys are restored exactly and have zero saturation. The HSV value is the largest channel, the HSL lightness is the mean of the largest and smallest channel rounded down.",
  ["inputs"],"all 2^64 16-bit RGBA colours",
  NT+"Integer overflow and sextant selection errors depend on the order and size of three channels.",
  ["lcolor/hsl.go","internal/minmax.go","internal/nrgba.go"],[("RGBToHSL, RGBToHSV, ToNRGBA, colourToHue, hcmaToColour","lcolor/hsl.go")],["lcolor.RGBToHSV/RGBToHSL then ToNRGBA"])
p("C08","The library's colour types are consistent and their models idempotent",
  "Every colour of the library's own types has one meaning: its alpha-premultiplied form and its non-premultiplied form denote the same colour, and both are legal. Each colour model maps a colour already in the model to itself, keeps the alpha of any colour (the RGB type has none: its model keeps the high bytes of the premultiplied colour), and is the identity on picture content it can represent (an 8-bit grey+alpha or opaque RGB colour of any standard type).",
  ["inputs"],"all field values of RGB, GrayAlpha, HSVA, HSLA; all colours converted by the models",
  NT+"Premultiplication rounding errors appear only for partial alpha.",
  ["lcolor/gray.go","lcolor/rgb.go","lcolor/hsl.go","lcolor/models.go","internal/nrgba.go"],[("RGBA/ToNRGBA methods","lcolor"),("model functions","lcolor/gray.go, lcolor/rgb.go")],["RGBAModel-style Convert, RGBA()"])
p("C09","Palette conversion picks a nearest palette entry and keeps alpha",
  "Converting a colour with an alpha palette yields the colour of a palette entry no farther from it than any other entry (both taken as opaque, in the distance image/color uses), combined with the alpha of the converted colour, and the index reported for the colour is that entry's. Reading back a pixel set to a palette entry's colour with any alpha gives that colour and alpha.",
  ["inputs"],"all colours, all palettes of up to 3 opaque entries",
  NT+"Nearest-entry selection has ties and overflow corners.",
  ["lcolor/indexed.go","indexedalpha.go"],[("AlphaPalette.Convert, AlphaPalette.Index","lcolor/indexed.go"),("PalettedAlpha.Set/At","indexedalpha.go")],["AlphaPalette.Convert/Index, PalettedAlpha.At"])
p("C10","Pixel stores: read what was set, nothing else moves, outside is inert",
  "For the RGB, grey+alpha and palette+alpha images, setting a pixel inside the bounds makes it read back as the set colour (converted to the image's colour model) and leaves every other pixel unchanged. Setting a pixel outside the bounds changes nothing, reading outside gives the zero (transparent) colour, and no coordinate makes reading or setting panic.",
  ["inputs","histories"],"every image rectangle (any position, sizes up to the stated bound), every pair of coordinates, every colour, arbitrary previous contents",
  NT+"Offset arithmetic must be injective for all rectangles with any origin.",
  ["rgb.go","grayalpha.go","indexedalpha.go"],[("PixOffset, Set*, *At","rgb.go, grayalpha.go, indexedalpha.go")],["At/Set of the three image types"])
p("C11","A sub-image is a window onto the same pixels",
  "For the RGB, grey+alpha and palette+alpha images, a sub-image has as bounds the intersection of the requested rectangle with the image's bounds, shows at every point of it exactly the pixel of the original, and a pixel set through either is seen through the other. Points outside that intersection stay inert, and an empty intersection gives an image with empty bounds on which no operation panics.",
  ["inputs"],"every image rectangle, every requested rectangle, every coordinate, nested sub-images",
  NT+"Offsets of cropped windows depend on both rectangles' origins.",
  ["rgb.go","grayalpha.go","indexedalpha.go"],[("SubImage","rgb.go, grayalpha.go, indexedalpha.go")],["SubImage(...).At/Set/Bounds"])
p("C12","Opaque reports exactly whether every visible pixel is opaque",
  "An image's opacity report is true if and only if every pixel inside its bounds has full alpha, for whole images and for sub-images alike.",
  ["inputs"],"all image contents, sizes up to the stated bound, all sub-images",
  NT+"PNG encoding drops the alpha channel when this report is wrongly true.",
  ["rgb.go","grayalpha.go","indexedalpha.go"],[("Opaque","grayalpha.go, indexedalpha.go, rgb.go")],["Opaque()"])
p("C13","Flattening composes exactly the visible layers that cover the point",
  "The colour of a layered image at a point is obtained by composing, from the last layer to the first, the colours of those layers that are visible and whose bounds contain the point, each with its own composite mode and with its opacity applied, starting from full transparency; invisible layers and layers elsewhere have no influence. The bounds of the image are the smallest rectangle containing all layer bounds, and in palette images only pixels at least half opaque replace what is below.",
  ["inputs"],"up to 3 layers with arbitrary bounds, modes, opacity, visibility and content; every point",
  NT+"Order, visibility and bounds interact.",
  ["image.go","layer.go","misc.go"],[("Image.At, Image.Bounds","image.go"),("Layer.At","layer.go")],["Image.At, Image.Bounds, Layer.At"])
p("C14","Cropping a layer or layered image does not move or change its pixels",
  "The sub-image of a layer or of a layered image shows, at every point inside both the requested rectangle and the original's bounds, the same colour as the original at that point. The bounds of a cropped layer, and of each layer of a cropped image, are the original's restricted to the rectangle, so that a cropped image shows nothing outside the rectangle.",
  ["inputs"],"all layer bounds and crop rectangles, nested groups, every point",
  NT+"No test crops anything.",
  ["layer.go","image.go"],[("SubImageLayer","layer.go"),("Image.SubImage","image.go")],["SubImage(r).At vs At"])
p("C15","Masks and layer opacity scale alpha and nothing else",
  "Applying a mask value or layer opacity multiplies the pixel's alpha by it (within one unit), leaves the non-premultiplied colour unchanged, is the identity at full value and gives full transparency at zero; a larger mask value never gives a smaller alpha. The mask value used is the one at the pixel's own position, and pixels outside the mask are transparent.",
  ["inputs"],"all colours, all 8-bit mask/opacity values, all positions",
  NT+"The masked test files only use fully white or black masks.",
  ["misc.go","layer.go"],[("transparency","misc.go"),("MaskedImage.At","misc.go"),("Layer.At","layer.go")],["MaskedImage.At, Layer.At"])
p("C16","The random-access adaptor honours the reader-at contract",
  "The random-access reader obtained from a seekable stream returns, for any sequence of reads at any offsets, exactly the bytes stored at those offsets, however the stream was positioned before and however short its individual reads are, also when several reads run at the same time. It reports a non-nil error whenever it returns fewer bytes than asked, reports seek failures, and keeps working after a failed read or seek instead of blocking.",
  ["inputs","histories","fault_sequences"],"every sequence of up to 3 reads, arbitrary offsets and lengths, arbitrary short reads and seek/read failures of the underlying stream",
  "No test reaches it; deadlock and short-read behaviour depend on fault sequences.",
  ["internal/bufioToReader.go"],[("readerAt.ReadAt","internal/bufioToReader.go"),("GetReaderAt","internal/bufioToReader.go")],["GetReaderAt(r).ReadAt"],[("stream position cache","where the stream is believed to be","readerAt.pos"),("lock","serialises seek+read","readerAt.readMutex")])
p("C17","ORA encode then decode preserves the layer tree",
  "Decoding an encoded layered image whose layers are not empty and lie within the canvas gives back the same tree: number, order and nesting of layers, names, positions, sizes, visibility, opacity, the composite modes OpenRaster can express, and each layer's pixels. A plain image encodes to a file that decodes to one layer showing that image. The merged picture stored in the file is the flattened image.",
  ["inputs"],"all trees of up to 3 layers and nesting depth 2 with arbitrary names, bounds inside the canvas, opacity, visibility and mode",
  "The ORA encoder test cannot be compiled here and checks no opacity, visibility or mode.",
  ["ora/encode.go","ora/decode.go","ora/stack.go"],[("writeStack attributes","ora/encode.go"),("processLayerAttrs, readLayer","ora/stack.go")],["ora.Encode then ora.Decode"])
p("C18","ORA decoding rejects malformed input with an error and never panics",
  "For any stack description and any set of archive members, decoding returns either an error or an image in which every layer has content; it never panics. A missing stack description, a mimetype member with wrong content, a missing or negative canvas size, malformed numbers, a description that ends before its root stack is closed, or a layer whose source is absent or undecodable are always errors, and every decoded layer's bounds lie within the canvas.",
  ["inputs"],"all stack descriptions of up to the stated number of elements and attributes with arbitrary values, any archive member set",
  NT+"All test files are well formed.",
  ["ora/decode.go","ora/stack.go"],[("getStack, checkMime, getDimensions","ora/decode.go"),("readStack, readLayer, skipTag","ora/stack.go")],["ora.Decode error/result"])
p("C19","ORA configuration agrees with the file",
  "Reading only the configuration of an ORA file yields the width and height stated by its stack description, fails whenever the stack description, its width or its height is missing or malformed (a negative size is malformed) or a mimetype member has the wrong content, and for encoded images equals the size of the encoded image.",
  ["inputs"],"all widths and heights (within the digit bound), any attribute order and extra attributes",
  "Tests use seven fixed files.",
  ["ora/decode.go","ora/encode.go"],[("DecodeConfig, getDimensions","ora/decode.go")],["ora.DecodeConfig"])
p("C20","The ORA thumbnail is a faithful miniature of at most 256x256 pixels",
  "The thumbnail stored by the encoder is at most 256 pixels wide and high, keeps the picture's aspect ratio to within one pixel, and is the picture itself when that is small enough. Each thumbnail pixel shows the picture's colour at the proportionally scaled position in both directions, which always lies inside the picture.",
  ["inputs"],"all picture sizes up to the stated bound, all thumbnail pixels",
  "No test looks at the thumbnail.",
  ["ora/thumbnail.go","ora/encode.go"],[("thumbnail.At, thumbnail.Bounds","ora/thumbnail.go"),("scale choice","ora/encode.go:writeImage")],["Thumbnails/thumbnail.png member"])
p("C21","XCF pixel data survives encode and decode exactly",
  "Encoding any image to XCF and decoding it restores every pixel exactly (in the colour representation of the file's base type: 8-bit RGBA, grey+alpha or indexed+alpha), whatever the pattern of repeated and differing bytes and whatever the image size, including sizes that are not multiples of the tile size. A run-length stream longer or shorter than the tile it fills is reported as an error.",
  ["inputs"],"all pixel contents for small images, and run/literal lengths up to and across every threshold of the run-length code (1..4, 126..130, 255..257, a full tile)",
  "The XCF tests cannot be compiled here, and sample a few random images; run-length thresholds are boundary conditions.",
  ["xcf/rle.go","xcf/image_encode.go","xcf/image_decode.go"],[("WriteRLE, WriteRLEData, rle.Read","xcf/rle.go"),("tile loops","xcf/image_encode.go, xcf/image_decode.go")],["xcf.Encode then xcf.Decode"])
p("C22","XCF encode then decode preserves the layer tree",
  "Decoding an encoded layered image gives back the same tree: number, order and nesting of layers, names, positions, sizes, visibility, opacity, layer masks, and every composite mode that an XCF file can express. A plain image or a single layer encodes to a file that decodes to one layer showing that image at its place.",
  ["inputs"],"all trees of up to 3 layers and nesting depth 2 with arbitrary names, positions, opacity, visibility, mode and mask",
  "The XCF tests cannot be compiled here and check neither opacity nor mode nor masks on encoding.",
  ["xcf/encoder.go","xcf/layer_encode.go","xcf/decoder.go","xcf/layer_decode.go","xcf/channel.go"],[("writeProperties","xcf/layer_encode.go"),("readProperties","xcf/layer_decode.go"),("makeGroups, makeImage","xcf/decoder.go")],["xcf.Encode then xcf.Decode"])
p("C23","Deferred decompression shows the same picture as immediate decoding",
  "For every XCF file that both accept, the image obtained with deferred decompression has the same layers, bounds and pixel colours as the image decoded at once, at every point and for every order of reading the points. Files with layer masks are accepted by both.",
  ["inputs","histories"],"all base types, all coordinates for sizes around tile boundaries, all reading orders of two points",
  "The XCF tests cannot be compiled here; they compare two image sizes only.",
  ["xcf/compressed.go","xcf/image_decode.go","xcf/channel.go"],[("decompressTile","xcf/compressed.go"),("readCompressedImage","xcf/image_decode.go")],["DecodeCompressed vs Decode, At"],[("tile cache","the last tile decompressed","compressedImage.tile/decompressed")])
p("C24","XCF decoding of arbitrary bytes returns, without panicking",
  "For any file contents decoding returns an image or an error; it never panics, also not in a background goroutine, and it never asks for an allocation that the runtime must refuse because of a nonsensical size field. An image that is returned can be read at every point of its bounds without panicking.",
  ["inputs"],"arbitrary values of each header, property, pointer and size field of files with the stated structure; arbitrary bytes for short files",
  "All XCF test files are well formed.",
  ["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/parasites.go","xcf/text.go","xcf/reader.go"],[("sticky error reader","xcf/reader.go"),("validation of header, properties, sizes","xcf/decoder.go, xcf/layer_decode.go, xcf/image_decode.go")],["xcf.Decode, xcf.DecodeCompressed"])
p("C25","Truncated or unreadable XCF data is reported, never silently replaced",
  "If the file ends early or a read of it fails anywhere in data needed for the image, decoding returns an error rather than an image with made-up pixels or properties. Contradictory sizes, wrong magic, unsupported versions, unknown compression and out-of-range opacity are errors too.",
  ["inputs","fault_sequences"],"truncation at every byte position and a read failure at every read of small files; every value of the validated fields",
  "No XCF test uses a damaged file.",
  ["xcf/reader.go","xcf/decoder.go","xcf/image_decode.go","xcf/rle.go"],[("sticky error","xcf/reader.go"),("consistency checks","xcf/image_decode.go")],["xcf.Decode error"])
p("C26","XCF configuration agrees with full decoding",
  "Reading only the configuration of an XCF file gives its width, height and a colour model that matches its base type (for indexed files, its palette), for every supported file version, and agrees with what full decoding uses.",
  ["inputs"],"all supported versions, base types, sizes and palettes up to 3 entries",
  "Tests use seven RGB files of the oldest layout.",
  ["xcf/decoder.go"],[("DecodeConfig, readHeader, readImageProperties","xcf/decoder.go")],["xcf.DecodeConfig"])
p("C27","XCF text layers keep their text and style",
  "Encoding a text layer and decoding it preserves the sequence of text pieces with their characters and their font, size, colour and bold/italic/underline/strikethrough flags, for any characters including quotes, backslashes and markup characters. Encoding text never panics, also with unset colours.",
  ["inputs"],"text of up to 2 pieces with arbitrary short strings and flags",
  "The XCF tests cannot be compiled here and encode no text layer.",
  ["xcf/text.go","xcf/parasites.go"],[("WriteText","xcf/text.go"),("parseTextData, quotedString","xcf/text.go, xcf/parasites.go")],["xcf.Encode then xcf.Decode on limage.Text"])
p("C28","XCF layer properties are interpreted as GIMP defines them",
  "Each layer mode number of the XCF format maps to the composite mode of that name, both in its legacy and current numbering; opacity, visibility and offsets are taken from the properties whatever their order and whatever unknown properties stand between them. Unknown properties are skipped by their stated length.",
  ["inputs"],"every 32-bit mode number; every order of the modelled properties; arbitrary unknown property contents",
  "Test files contain only a few property kinds.",
  ["xcf/layer_decode.go","xcf/props.go","xcf/skip.go"],[("readMode, readProperties","xcf/layer_decode.go")],["xcf.Decode layer fields"])
p("C29","XCF decoding does not depend on scheduling or map order",
  "The decoded image, and whether decoding fails, depend only on the file: not on the order in which the layer-reading goroutines run nor on the iteration order of internal tables. Layer groups of any nesting come out with all their layers in file order.",
  ["schedules","inputs"],"all orders of running the layer readers to completion and all map iteration orders, trees of up to 4 layers and depth 3",
  "A test run sees one schedule and one map order.",
  ["xcf/decoder.go"],[("readLayers","xcf/decoder.go"),("makeGroups, makeImage","xcf/decoder.go")],["xcf.Decode"])
p("C30","Encoders report every write failure",
  "If any write to the output fails while encoding to ORA or XCF, the encoder returns a non-nil error; it returns nil only if every byte it produced was accepted.",
  ["fault_sequences"],"a failure injected at each write of encoding a small image, in both formats",
  "No test uses a failing writer.",
  ["xcf/writer.go","xcf/encoder.go","ora/encode.go"],[("sticky writer error, pointer writer","xcf/writer.go"),("zip writer close","ora/encode.go")],["Encode's error result"])
for d in P: print(json.dumps(d))
