# property: (oracle, outside of the bounds)
N={
'F01':("no panic, no exceeded step limit; pixel count equals the product of the axes and the length of the data. Damaged bytes, lengths of axes and portions delivered are symbolic, starting from a valid file.","damage to more than three adjacent bytes of a card at once; gzip streams that are damaged inside of the compressor's format."),
'F02':("value of each sample computed from its bytes by shifts, and BSCALE, BZERO as read; all partitions of the data into portions by the reader.","more than three pixels with every partition (larger images cross the read buffer at chosen offsets)."),
'F03':("the image before writing, compared bit by bit after Write and Read.","strings of more than 160 characters, header values with symbols in more than one entry at a time."),
'F04':("the bytes written to a plain buffer by the same writer; the file model holds an older, longer file at first. The failing operation, if any, and how much it wrote, are symbolic.","failure of more than one operation; power loss after a successful close."),
'F05':("a parser for cards and blocks written in the harness from the FITS standard.","headers of more than 130 entries."),
'F06':("value of the card computed from its symbolic digits and characters in the harness.","more than five digits per part; keyword conventions not in the FITS standard."),
'F07':("linear map computed in float64, clamped; TIFF strips decoded by the harness, JPEG checked at the call of the encoder.","images of more than 25 pixels; the coding of JPEG."),
'F08':("pairwise different names, complete files in the file model.","identifiers outside of the ranges around powers of ten, two and zero."),
'F09':("lexical meaning of the path: absolute, or more parent references than directories at any point; opened names recorded by the file model.","symbolic links; paths of more than four arbitrary elements; chroot of the REST server."),
'F10':("lines of the document compared with the statistics of the frames; scanned by a small parser.","formatting of floats other than by %.6g and the like is that of fmt."),
'F11':("samples placed into a TIFF file which the harness builds; the decoder of the library runs symbolically, too.","compressed, tiled, paletted and 16 bit alpha files; images larger than 20x9 (33x12 thorough)."),
'P01':("light minus dark, then times the maximum of the flat divided by the flat, where the flat is positive.","images of more than six pixels."),
'P02':("position of each colour in the 2x2 cell and neighbours within the image, computed in the harness per pixel.","images larger than 5x5 (8x8 thorough); all cells behave as the first ones."),
'P03':("median and deviation recomputed by sorting the neighbours, differences from the local median collected for the standard deviation.","one arbitrary pixel at a time on given scenes, 5x5 (8x8 thorough)."),
'P04':("sum over the block divided by N*N, in symbolic sums up to order, or with a tolerance.","images larger than 8x9, bins larger than 6."),
'P05':("percentile of the values below the threshold, median over the window.","images of more than 9 lines or 4 pixels per line."),
'P06':("differences before and after, with and without rendering; bilinear interpolation recomputed for chosen centres.","images larger than 17x17, more than 30 clipped cells; which cells are outliers is not specified."),
'P07':("statistics of a fresh Stats object on a copy of the pixels.","sequences of more than two operators; location and scale are compared where they are defined by the estimator in use."),
'P08':("v*scale+offset with the announced parameters, in float64 with a tolerance.","more than 40 pixels."),
'S01':("index, value, distances and mass recomputed from the image; scenes of a background with up to three bright pixels, one with symbolic brightness at a symbolic place.","crowded fields; images larger than 12x9 in both directions."),
'S02':("minimum over all points of the squared distance, for a query at a symbolic place.","more than 20 (31 thorough) points; coordinates outside of the grid of multiples of 1/8."),
'S03':("the equations of the three points, composition of transform and inverse, with a tolerance; the optimiser is replaced by a nondeterministic model.","more than 8 stars, quality of alignments between noisy star lists."),
'S04':("inverse and bilinear interpolation recomputed in float64; borders may count as either.","images larger than 6x5, shifts finer than a quarter pixel."),
'K01':("mean, weighted mean and median over the valid values of the pixel, computed in the harness; identical frames; independence of pixels.","more than 7 frames."),
'K02':("the same stacker on the frames without the invalid one, and on permuted frames.","more than 4 frames; clipping modes 5, 6, 8 are explored partially for fully symbolic pixels (see reduced_bound in the evidence) and completely for the patterns of ZZ_K02_alone and ZZ_K03_outlier."),
'K03':("the documented clipping rule as a separate reference in the harness, with a tolerance band at the bound.","more than 4 symbolic frames, or 10 patterned ones."),
'K04':("number of times each file is loaded and the peak number of frames alive, counted by instrumented steps of the harness.","more than 20 frames, memory limits other than in the symbolic range (all that matter for the sizes given)."),
'K05':("sum of batch results times frames, divided by all frames.","more than 6 batches."),
'K06':("stacking function on the complete image at once; happens-before race detection.","more than three preemptions; memory models weaker than sequential consistency (covered by the race property)."),
'Q01':("number of smaller and equal values, and multiset of values, for fully symbolic floats.","more than 5 or 6 elements."),
'Q02':("rank of the result among the values.","windows of more than 9 values."),
'Q03':("rank of the result in the neighbourhood, for the Go code and the AVX2 assembler.","images wider than 16."),
'Q04':("formulas of the definitions; ranges and termination for estimators.","more than 21 pixels; accuracy of randomised estimates."),
'C01':("order and count of promises in the harness, number of concurrent ones by counters.","more than 4 promises, three preemptions."),
'C02':("number of times each pixel was changed.","more than 70 pixels, 8 processors, three preemptions."),
'C03':("number of times each frame is computed, the reference used for each, error for failing ones.","more than 4 frames, two preemptions."),
'J01':("fields of the operator set from the values of the document; operators constructed directly.","documents not well formed as JSON (encoding/json is trusted)."),
'J02':("a trace of calls recorded by the steps of the harness; bit-identical images.","more than 6 steps."),
'H01':("selection computed from hue, chroma and luminance of the pixel in the harness, values compared with a tolerance.","values other than multiples of 1/64 within and next to the range."),
'H02':("order of results for ordered inputs, end points, formula of the curve with a tolerance.","values other than multiples of 1/64."),
'H03':("formula of the mask from image and blurred image, clamped.","images larger than 5x5."),
'H04':("symmetry, sum, falling coefficients; sum of weighted mirrored neighbours; range of the input.","sigma beyond 180/16, images larger than 7 in a direction."),
'H05':("common affine map of the planes computed from extremes of all channels; round trip of conversions with a tolerance.","accuracy of colour spaces other than by round trips."),
'H06':("saturation by linear interpolation between bounds, block sums over the image, mean star colour, affine map from points to tints.","images larger than 9x6."),
}
