#!/usr/bin/env python3
# Writes properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),mechanism=[dict(name=a,where=b) for a,b in mech])))
R="internal/"
p("F01","Reading any FITS byte stream ends in an image or an error, never a crash",
 "Reading a FITS file never panics and never hangs, whatever the header claims (axis counts and lengths, bit depths, missing or malformed cards) and wherever the data ends. When reading succeeds, the image is coherent: the number of pixels equals the product of the axis lengths and the data slice has exactly that many values.",
 "inputs","all header numeric values within int64, all combinations of present/missing mandatory keywords, all truncation points; one or a few data blocks",
 "No test reads a FITS file at all; the failing inputs are specific header values and truncation points.",
 R+"fits/read.go",[("Image.Read","internal/fits/read.go"),("header parser","internal/fits/read.go Header.read/readLine")])
p("F02","FITS pixel values decode exactly for every bit depth and every read pattern",
 "Each pixel read from a FITS file equals the big-endian stored sample of the declared bit depth times BSCALE plus BZERO, in file order. The result does not depend on how the underlying reader chunks its data (short reads, data delivered together with EOF), and data ending before the last pixel is reported as an error instead of an image.",
 "inputs fault_sequences","all sample bit patterns for 8/16/32/64 bit integer and 32/64 bit float data, all chunkings of the stream into reads, all truncation points",
 "No test reads a FITS file; chunk boundaries inside a sample appear only with particular readers (gzip, network).",
 R+"fits/read.go",[("readInt8Data..readFloat64Data","internal/fits/read.go")])
p("F03","Saving an image as FITS and loading it back gives the same image",
 "An image written as FITS and read back has the same axes and bit-identical pixel values (NaN, which is written as zero, excepted), and the same exposure and header values of every type (boolean, integer, float, short string). Nothing about the values, size or number of header entries may break the round trip.",
 "inputs","all float32 pixel bit patterns, exposures over all magnitudes, header maps with integer, float, boolean and short string entries, all image shapes within the bounds",
 "No test writes a FITS file; the failing values are particular magnitudes (exponent notation) and sizes.",
 R+"fits/read.go "+R+"fits/write.go",[("Image.Write","internal/fits/write.go"),("Image.Read","internal/fits/read.go")])
p("F04","A save that reports success left exactly the new image in the file",
 "When saving a FITS, TIFF or JPEG file (plain or gzipped) returns without error, the file contains exactly the bytes of the new image, whatever the file held before. Every failure to create, write, flush or close the file is returned to the caller as an error.",
 "fault_sequences inputs","every write/flush/close operation failing at any point, every previous file length",
 "No test saves a file, and none injects write failures or overwrites an older, longer file.",
 R+"fits/write.go "+R+"fits/tiff16.go "+R+"fits/writejpg.go "+R+"ops/operator.go",[("WriteFile","internal/fits/write.go"),("OpSave","internal/ops/operator.go")])
p("F05","Written FITS files have the mandatory structure",
 "Every FITS stream written consists of whole 2880-byte blocks; the header is made of 80-character printable cards, begins with SIMPLE, BITPIX, NAXIS and the NAXISn cards in that order, and has exactly one END card followed only by blanks up to the block end. The data unit holds the pixels as big-endian 32-bit floats padded to a full block.",
 "inputs","all image shapes, pixel values and numbers/values of header entries within the bounds",
 "No test writes a FITS file; card overflow or block misalignment depends on value magnitude and number of cards.",
 R+"fits/write.go",[("Image.Write, Header writers","internal/fits/write.go")])
p("F06","FITS header cards are interpreted by their standard meaning",
 "A header card with a boolean, integer, float, string, date, comment or history value is made available under its keyword with exactly the value stated in the card, and comments and history lines are kept separately and in order. Header values used by the program (BZERO, BSCALE, exposure, axes) have the value stated in the file, including values outside the 32-bit range where that is a legal value.",
 "inputs","all card contents of the fixed format: every digit string, sign, exponent, comment and trailing text within bounds",
 "No test parses a header; there are unboundedly many card contents.",
 R+"fits/read.go",[("header regular expression and readLine","internal/fits/read.go")])
p("F07","TIFF and JPEG export maps values monotonically and never wraps",
 "Exporting maps the chosen range linearly to the full output range, with values below/above the range clamped to black/white and NaN shown as black, so that a larger pixel value never produces a smaller output sample. For colour images each output channel comes from the corresponding input plane.",
 "inputs","all float32 pixel values, all finite ranges min<max",
 "No test exports an image; wrap-around happens only for particular out of range values.",
 R+"fits/tiff16.go "+R+"fits/writejpg.go",[("WriteMonoTIFF16, WriteTIFF16","internal/fits/tiff16.go"),("WriteMonoJPG, WriteJPG","internal/fits/writejpg.go")])
p("F08","Distinct frames are saved under distinct file names",
 "When saving frames with a file name pattern containing a frame number placeholder (such as %d or %04d), frames with different IDs are saved under different names. A pattern without a placeholder is used verbatim.",
 "inputs","all pairs of frame IDs, pattern forms without placeholder, with %d and with zero-padded placeholders",
 "No test saves files.",
 R+"ops/operator.go",[("OpSave","internal/ops/operator.go")])
p("F09","Loading stays within the working directory when paths are restricted",
 "When an image operator loads a file by a user-supplied pattern, no path which is absolute or leads outside of the working directory is opened.",
 "inputs","all path strings of bounded length",
 "No test exercises path checks.",
 R+"ops/operator.go",[("isPathAllowed","internal/ops/operator.go")])
p("F10","Exported session statistics are complete and true",
 "When the statistics of a session are exported, the file has exactly one line for each frame which passed, with the minimum, mean, maximum, location, scale, number of stars and half flux radius of that frame, within a complete document. This holds for any number of frames, also without batches, when frames are skipped, and for several exports in one pipeline. Every failure to write the file is an error.",
 "histories faults","all combinations of passed, skipped and failing frames, batches, and failing file operations",
 "No test exports statistics.",
 R+"ops/ref/exportstats.go",[("OpExportStats.Apply","internal/ops/ref/exportstats.go")])
p("F11","Loading a TIFF file gives its pixel values, and damaged files are errors",
 "Loading an 8 or 16 bit grey or RGB TIFF gives one pixel per sample, with the colour planes in order, whatever the byte order, the division into strips, or an inverted grey scale, and the minimum, maximum and mean recorded are those of these pixels. A 16 bit TIFF exported and loaded again agrees with the image within one quantisation step. Truncated, damaged or unsupported files are errors, never crashes.",
 "inputs","all values of the samples, small image sizes, both byte orders, strip heights, grey and RGB, truncation at all kinds of places, and any unknown magic number, compression or colour model",
 "No test loads a TIFF file.",
 R+"fits/tiff16.go",[("Image.ReadTIFF","internal/fits/tiff16.go")])
p("P01","Dark and flat calibration is exact per pixel and checks dimensions",
 "Dark subtraction yields light minus dark for every pixel, and flat division yields light times the flat's maximum divided by the flat for every pixel where the flat is positive. Calibration frames with another number of pixels than the light frame are reported as an error and leave the light frame unchanged; calibration frames themselves are never modified. With several calibration steps in a pipeline, each applies only the frames it names.",
 "inputs configurations","all pixel values, all combinations of matching/mismatching dimensions, with or without each calibration frame",
 "No test runs calibration.",
 R+"ops/pre/preprocess.go "+R+"fits/pixelops.go",[("OpCalibrate","internal/ops/pre/preprocess.go"),("Subtract, Divide","internal/fits/pixelops.go")])
p("P02","Debayering keeps measured samples and interpolates from same-colour neighbours",
 "In the debayered plane, every pixel that the colour filter array sampled in the selected channel keeps its measured value, and every other pixel is the mean of the nearest samples of that same channel (at the image edge, a mean of those within the image); no sample of another colour ever contributes. The result has the even size of the full cells for every input size and all four Bayer layouts, and images without a full cell, unknown layouts or unknown channels give an error rather than a crash.",
 "inputs configurations","all pixel values, all sizes within bounds, all four CFA layouts and three channels",
 "The tests cover only RGGB on one fixed 8x8 image.",
 R+"ops/pre/debayer.go",[("DebayerBilinear*","internal/ops/pre/debayer.go")])
p("P03","Cosmetic correction changes only outliers, replacing them by local medians",
 "Bad pixel removal changes exactly those pixels which deviate from their local median by more than the given multiple of sigma, and sets each to the median of its neighbours; all other pixels keep their value. Outermost rows and columns are left alone in monochrome images. In the Bayer variants only pixels of the selected colour are inspected and changed and only same-colour neighbours are used, for every image size.",
 "inputs configurations","all pixel values, all image sizes and CFA layouts within the bounds, all sigma settings",
 "Tests use a handful of fixed 8x8 Bayer images.",
 R+"ops/pre/badpixels.go "+R+"ops/pre/badpixels_bayer.go "+R+"median/gather.go",[("CosmeticCorrection*","internal/ops/pre/badpixels.go, badpixels_bayer.go"),("GatherAndMedian","internal/median/gather.go")])
p("P04","Binning averages each NxN block exactly once",
 "Binning by N produces an image whose axes are the input axes divided by N rounding down, each output pixel being the mean of its N by N block; remaining border pixels are ignored and colour planes are binned separately. Each input pixel within the covered area contributes to exactly one output pixel, and the input image is not modified.",
 "inputs configurations","all pixel values, all image sizes and bin factors within bounds",
 "No test runs binning.",
 R+"fits/fits.go "+R+"ops/pre/preprocess.go",[("NewImageBinNxN","internal/fits"),("OpBin","internal/ops/pre/preprocess.go")])
p("P05","Banding removal scales rows (columns) to a common level and never invalidates data",
 "Horizontal (vertical) debanding multiplies all pixels of one row (column) by one common factor, which brings the row's (column's) percentile to the median of those in the window around it; images without banding stay as they are, and columns are treated just like the rows of the transposed image. An inactive setting (no percentile or window) leaves the image unchanged. It never crashes and never turns finite pixels into NaN or infinities, for any image size, percentile and window.",
 "inputs configurations","all small pixel values, percentiles, windows and image sizes within bounds, including rows without valid pixels",
 "No test runs debanding.",
 R+"ops/pre/banding.go",[("DebandHoriz, DebandVert","internal/ops/pre/banding.go")])
p("P06","Background extraction subtracts exactly the rendered background, for every grid",
 "Background extraction never crashes, for any image size, grid spacing, clip setting and star list, and subtracting the fitted background from an image equals subtracting the background image it renders, pixel by pixel. A constant image has a constant fitted background, an offset added to the image is added to its background, stars of any size relative to the grid and few outlying pixels are not part of it, and it is saved when asked for.",
 "inputs configurations","all image sizes, grid sizes and clip counts within bounds, all pixel values for subtract versus render",
 "No test runs background extraction.",
 R+"ops/pre/background.go",[("NewBackground, Render, Subtract","internal/ops/pre/background.go")])
p("P07","Image statistics always describe the current pixels",
 "After any processing operator has run, the minimum, maximum, mean and standard deviation reported for the image are those of its current pixel data, not of data before the operation. This includes operators that scale by negative factors, clip, replace or combine pixels.",
 "inputs histories","all pixel values and operator parameters within bounds; every operator applied after statistics were already computed and cached",
 "No test queries statistics after an operation; staleness needs a sequence query-operate-query.",
 R+"stats/stats.go "+R+"fits/pixelops.go "+R+"ops/stretch "+R+"ops/pre "+R+"ops/hsl",[("Stats cache","internal/stats/stats.go"),("in-place pixel operators","internal/fits/pixelops.go")])
p("P08","Scaling and offset operators apply the affine map they announce",
 "Affine pixel operators (offset, scale, normalisation to a range, shifting the black point, matching location and scale of a histogram) transform every pixel by the same map v*scale+offset with the announced parameters, so that the pixels at the announced reference values land on the announced targets. The map is applied to every pixel of every channel exactly once.",
 "inputs","all small pixel values and parameters, all image sizes within the bounds, including sizes around worker chunk boundaries",
 "No test runs these operators.",
 R+"fits/pixelops.go",[("ScaleOffsetClamp, OffsetScale...","internal/fits/pixelops.go")])
p("S01","Star detection reports real, distinct, in-image stars",
 "Star detection never crashes for any image content and size, and every reported star lies within the image, has the index and value of the pixel at its coordinates, a finite positive mass and a half-flux radius within the detection radius. A round star is found at its centre with its mass and half-flux radius. No two reported stars are closer than the overlap radius, and an image without pixels above the threshold gives no stars.",
 "inputs configurations","all pixel values of small images, all star candidate positions for the overlap filter, thresholds and radii within bounds",
 "No test runs star detection.",
 R+"star/findstars.go",[("FindStars and its filter stages","internal/star/findstars.go")])
p("S02","k-d tree nearest neighbour queries are exact",
 "Building a tree from a set of points keeps exactly these points, and the nearest neighbour reported for a query is a point of the set with minimal distance, for two-dimensional points and three-dimensional points with payload. This includes duplicate points, collinear points and trees of any size.",
 "inputs","all small integer coordinates for points and queries, all set sizes within the bounds",
 "No test covers the trees; the faults show only for particular geometric arrangements (splitting plane pruning).",
 R+"star/kdtree2.go "+R+"star/kdtree3p.go",[("NearestNeighbor","internal/star/kdtree2.go, kdtree3p.go")])
p("S03","Coordinate transforms match, invert and compose as geometry demands",
 "The transform computed from three point pairs maps each of the three points onto its partner, and inverting a transform gives the geometric inverse; degenerate input is reported as an error, never as a transform with NaN or infinite coefficients. Star alignment never crashes for any star lists, and identical star lists align with the identity.",
 "inputs","all small integer point triples, all transforms with small coefficients",
 "No test covers transforms.",
 R+"star/coord.go "+R+"star/align.go",[("NewTransform2D, Invert, Apply","internal/star/coord.go"),("Aligner","internal/star/align.go")])
p("S04","Projection resamples the right pixels and marks the outside",
 "Projecting an image with a transform gives every output pixel whose source position lies within the input the bilinear interpolation of its four neighbours, and every other output pixel the configured out-of-bounds value (positions exactly on the last row or column count as either). Projection with the identity returns the interior unchanged, with integer shifts moves pixels exactly, and never reads outside of the image; a transform without inverse is an error. The projected image keeps the number, exposure and half flux radius of the frame.",
 "inputs configurations","all pixel values, translations and small affine transforms, image sizes within the bounds, all out-of-bounds modes",
 "No test covers projection.",
 R+"fits/project.go "+R+"ops/post/postprocess.go",[("Image.Project","internal/fits/project.go")])
p("K01","Stacked pixels are the mean or median of the frames' valid pixels",
 "The mean, weighted mean and median stacking modes give exactly the mean, weighted mean and median of the valid values which the frames have at a pixel, and the configured replacement value if no frame has a valid value there. With every stacking mode, identical frames stack to themselves with nothing clipped, and pixels without any valid value get the replacement value.",
 "inputs configurations","all small pixel values with any subset NaN, all stacking modes, weighted and unweighted, up to a bounded number of frames",
 "No test runs a stacker.",
 R+"ops/stack/stack.go",[("StackMedian..StackLinearFit","internal/ops/stack/stack.go")])
p("K02","Stacking ignores NaN pixels and the order of the frames",
 "Invalid (NaN) pixels of a frame have the same effect on the output as if that frame did not cover the pixel, and permuting the input frames together with their weights does not change the result or the clip counts beyond rounding. Frames of different size, empty frame lists, unknown modes and frames lacking the information for their weight are reported as errors; weights follow the exposure, the half flux radius, or the noise of the valid pixels of the frames.",
 "inputs histories","all small pixel values, NaN subsets, permutations of a bounded number of frames and weights",
 "No test runs a stacker.",
 R+"ops/stack/stack.go",[("Stack","internal/ops/stack/stack.go")])
p("K03","Outlier rejection removes only outliers and keeps values with their weights",
 "Rejecting stackers give the (weighted) mean of the values that remain within the configured sigma bounds, each weighted with its own frame's weight; with bounds wide enough to reject nothing they give the plain (weighted) mean. Sigma, winsorized sigma, MAD and linear fit clipping reject by their documented rule. The reported clip counts equal the number of values actually rejected.",
 "inputs configurations","all small pixel values and weights, sigma bounds including very wide and very narrow, up to a bounded number of frames",
 "No test runs a stacker; weight mix-ups show only when selection reorders values.",
 R+"ops/stack/stack.go",[("StackSigma, StackWinsorSigma, StackMADSigma, StackLinearFit","internal/ops/stack/stack.go")])
p("K04","Batch partitioning processes every frame exactly once within the memory budget",
 "For any frame count, frame size, thread count and memory limit, splitting the input frames into batches assigns every frame to exactly one batch, with the frames of a batch, one temporary frame per thread, dark and flat and (with several batches) two more frames within the memory limit and parallelism of at least one. An error is reported only if the memory cannot hold one thread and four frames; empty images and empty frame lists are errors, never a crash or an endless loop.",
 "inputs configurations","all numbers of frames within bounds, all image sizes, thread counts, memory sizes",
 "No test covers batch partitioning.",
 R+"ops/stack/stackbatches.go",[("partition","internal/ops/stack/stackbatches.go")])
p("K05","Combining batches equals the mean of the batches weighted by their frames",
 "Stacking batch by batch with the incremental accumulator gives, for every pixel, the weighted mean of the batch results with the number of frames of each batch as weight, for any number of batches and any image content. The exposure of the final stack is the sum over the batches, batch results are not modified, and batches of different dimensions are an error.",
 "inputs histories","all small pixel values, weights and sequences of batches within bounds",
 "No test covers incremental stacking.",
 R+"ops/stack/stackbatches.go "+R+"ops/stack/stack.go",[("StackIncremental, StackIncrementalFinalize","internal/ops/stack")])
p("K06","Parallel stacking gives the same image under every goroutine schedule",
 "Stacking a set of frames produces the same pixels under every interleaving of its worker goroutines, processes each pixel exactly once and has no data race. It always terminates.",
 "schedules inputs","all interleavings at synchronisation points within the explored bound, symbolic pixel values",
 "Tests see one schedule, and none runs a stacker.",
 R+"ops/stack/stack.go",[("Stack worker pool","internal/ops/stack/stack.go")])
p("Q01","Selection, sorting and median helpers return the true order statistics",
 "Sorting yields the ascending permutation of the input; selecting the k-th value returns the k-th smallest; the median is the middle value (mean of the two middle values for even length) and the first quartile the value at a quarter of the order. All of them only permute their argument, for arrays of any content free of NaN, including duplicates and infinities.",
 "inputs","all float32 values (infinities included) of arrays up to the length bound, all k",
 "One test checks the median on random data; partition errors show only for particular patterns of ties.",
 R+"qsort/qsort.go",[("QSortFloat32, QSelectFloat32, QSelectMedianFloat32","internal/qsort")])
p("Q02","Small-window medians are exact",
 "The median of a gathered neighbourhood or of a small fixed-size window is the true median of the values in the window, for all values including duplicates, zeros of either sign and infinities. Windows cut by the image border use only pixels within the image.",
 "inputs","all float32 value combinations of up to nine elements, all border positions",
 "No test covers the median networks.",
 R+"median/median3x3.go "+R+"median/gather.go",[("MedianFloat32Slice9","internal/median"),("GatherAndMedianFloat32","internal/median/gather.go")])
p("Q03","The 3x3 median filter gives the median of each pixel's neighbourhood",
 "Every interior pixel of the 3x3 median filter output is the median of its nine neighbours, and every border pixel keeps its value, for every image size; the input is not modified. It does not matter which implementation (portable or vectorised) is selected.",
 "inputs configurations","all float32 pixel values, all small image sizes",
 "No test covers the filter.",
 R+"median/median3x3.go "+R+"median/median3x3_amd64.go "+R+"median/median3x3_amd64.s",[("MedianFilter3x3","internal/median")])
p("Q04","Statistics, histogram, location and scale estimators are correct and total",
 "Minimum, mean, maximum, variance and noise are the defined functions of the data; every valid pixel falls into exactly one histogram bin, and location/scale estimation never crashes or hangs for any finite data, including constant images and single pixels. Location estimates lie within the data's range and scale estimates are not negative.",
 "inputs","all small pixel values, lengths and bin counts within bounds",
 "No test covers statistics.",
 R+"stats/stats.go "+R+"stats/histogram.go "+R+"stats/noise.go",[("calcMinMeanMax, histogram, sigma clipping","internal/stats")])
p("C01","Parallel loading delivers every image once, in order, under every schedule",
 "Materialising a list of image promises returns the images of all successful promises in the order of the list, reports an error if any promise failed, never runs more than the permitted number at a time, and evaluates each promise exactly once, under every goroutine schedule and every subset of failing or empty promises. It always terminates.",
 "schedules fault_sequences","all interleavings at synchronisation points, all subsets of failing/empty promises, bounded number of promises and threads",
 "No test runs the pipeline; ordering and lost-result errors need particular schedules.",
 R+"ops/operator.go",[("MaterializeAll","internal/ops/operator.go")])
p("C02","Parallel pixel functions touch each pixel exactly once, race-free",
 "Pixel operators that distribute work over goroutines apply their function to every pixel exactly once, for every image size and thread count, under every schedule and without data races.",
 "schedules inputs configurations","all interleavings at synchronisation points, image sizes around chunk boundaries, all pixel values",
 "Tests see one schedule and one size.",
 R+"fits/pixelops.go "+R+"fits/rgb.go",[("ApplyPixelFunction...","internal/fits/pixelops.go")])
p("C03","Reference frame selection passes each frame on exactly once",
 "Selecting and applying a reference frame delivers each input frame to the following steps exactly once, uses one common reference for alignment, histogram matching and so on, and reports a failure to load a reference as an error, never as a crash or deadlock, under every schedule.",
 "schedules fault_sequences configurations","all interleavings at synchronisation points, all selection modes, failing/empty promises within bounds",
 "No test runs the pipeline.",
 R+"ops/ref/refframe.go",[("OpSelectReference","internal/ops/ref/refframe.go")])
p("J01","Processing pipelines given as JSON are executed as written",
 "Every operator that is given in a JSON pipeline is executed with exactly the parameter values given there and documented default values for the parameters not given, and several operators of the same kind keep their own parameters. Unknown operator types are reported as an error; writing a pipeline as JSON and reading it back gives the same pipeline.",
 "programs configurations","all operator kinds, all values of numeric and boolean parameters, any subset of parameters present",
 "No test parses a pipeline.",
 R+"ops/operator.go",[("UnmarshalJSON of the operators and of OpSequence","internal/ops")])
p("J02","Sequences apply their steps in order, and inactive steps change nothing",
 "A sequence passes the output of each step to the next in the given order and stops with the error of the first failing step. An inactive operator (or one whose parameters select no action) returns its inputs unchanged. Frames which a step skips reach no later step, and no step crashes on them.",
 "programs fault_sequences inputs","all sequences up to a bounded length, any active/failing subset, all pixel values",
 "No test runs a sequence.",
 R+"ops/operator.go",[("OpSequence.MakePromises","internal/ops/operator.go")])
p("H01","Hue, chroma and range operators change only what they select",
 "Colour adjustments restricted to a hue, chroma or brightness range leave all pixels outside of the selection unchanged, and pixels inside are changed by the announced amount (hues are compared modulo 360 degrees). Results stay finite.",
 "inputs","all pixel values within the nominal range, all range settings",
 "No test covers colour operators.",
 R+"ops/hsl/hsl.go "+R+"fits/pixelops.go",[("hsl operators","internal/ops/hsl/hsl.go")])
p("H02","Tone curves are monotone and stay in range",
 "Gamma, midtones and similar stretches keep the order of pixel values and map the nominal range onto itself with fixed end points. Gamma or midtone settings that select no change leave pixels unchanged.",
 "inputs","all pixel values in the nominal range, all valid parameters",
 "No test covers tone curves.",
 R+"fits/pixelops.go "+R+"ops/stretch/stretch.go",[("Gamma, midtones","internal/fits/pixelops.go")])
p("H03","Unsharp masking is the announced combination and stays in range",
 "Unsharp masking gives data plus gain times (data minus blurred) for pixels at or above the threshold, clamped to the data range given, and leaves pixels below the threshold unchanged, for every image size, radius, gain and threshold. It never crashes.",
 "inputs configurations","all pixel values, gains, thresholds; sizes and radii within bounds",
 "One test with one fixed image.",
 R+"ops/stretch/usm.go",[("UnsharpMask","internal/ops/stretch/usm.go")])
p("H04","Gaussian filtering preserves flat images and never leaves the image",
 "The Gaussian kernel is symmetric and sums to one for every positive sigma; filtering preserves constant images, stays within the minimum and maximum of the input, treats borders by reflection and never crashes or hangs, for every sigma, image width and height.",
 "inputs configurations","all pixel values, sizes and kernel widths within the bounds",
 "Tests use a few fixed sigmas and one image.",
 R+"ops/stretch/usm.go",[("GaussianKernel1D, GaussFilter2D","internal/ops/stretch/usm.go")])
p("H05","Colour combination puts each input into its own channel",
 "Combining three mono frames gives a colour image whose channel planes are the inputs in order, all brought to the range from zero to one by the same map; a fourth frame becomes the luminance and changes no colour plane. Frames of different size, missing frames or the wrong number of frames are reported as errors without crash. Luminance application keeps the colour relations and uses the given luminance for every pixel.",
 "inputs configurations","all pixel values, all size combinations, 0..5 input frames",
 "No test covers colour combination.",
 R+"ops/rgb/rgb.go "+R+"fits/rgb.go",[("OpRGBCombine, OpRGBBalance","internal/ops/rgb/rgb.go"),("NewRGBFromChannels","internal/fits/rgb.go")])
p("H06","Background neutralisation, black point moves and colour balance act on each channel separately",
 "Background neutralisation and black point operators change each channel according to that channel's own statistics and the parameters given for it, fully below the lower bound, not at all above the upper bound and monotonically in between. Colour balance maps the shadows and highlights of each channel to the tint given for it; shadows are those of the darkest block outside of the border, highlights the mean unclipped star colour. For settings or images without such a block or stars it gives an error or finite pixels, never a crash or NaN.",
 "inputs","all pixel values and settings within bounds",
 "No test covers these operators.",
 R+"fits/pixelops.go",[("NeutralizeBackground","internal/fits/pixelops.go")])
json_path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(json_path,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
