#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

SF="SEFramework/SEFramework/"
prop("C01", "Padding takes every output pixel from where its border rule says",
 "For every original image, padded size and border rule (replicate the edge, reflect, reflect without repeating the edge, wrap around, constant value), the pixel read at any position of the padded image equals the original pixel that the rule assigns to that position (or the constant), the original lying centred in the result. No position of the padded image ever makes the original be read outside its bounds.",
 ["inputs"], "all image sizes, all padded sizes not smaller than the original, all pixel positions, all pixel contents, all five border rules",
 "The tests evaluate each rule on one 3x3 image padded to one size; the modular arithmetic only goes wrong for particular combinations of size, padding and side.",
 [SF+"Image/PaddedImage.h"], [("PaddedImage",SF+"Image/PaddedImage.h"),("border coordinate functions",SF+"Image/PaddedImage.h")], "pixels of the padded image")
prop("C02", "Mirrored, recentred and cropped views are exact coordinate maps",
 "A mirrored view shows at every position the pixel point-reflected through the image centre, a recentred view shows the image cyclically shifted so that the chosen centre pixel (any pixel of the image) comes first, and a cropped view shows exactly the requested rectangle of its image. This holds pixel for pixel for any image, size, position and rectangle, and the view never reads its image out of bounds.",
 ["inputs"], "all image sizes and contents, all centres and rectangles inside the image, all positions and requested regions",
 "Tests check one or two fixed small images; an off-by-one or a swapped axis shows only on non-square images, odd/even sizes or regions that straddle the wrap line.",
 [SF+"Image/MirrorImage.h",SF+"Image/RecenterImage.h",SF+"Image/SubImage.h"],
 [("MirrorImage",SF+"Image/MirrorImage.h"),("RecenterImage",SF+"Image/RecenterImage.h"),("SubImage",SF+"Image/SubImage.h")], "pixels of the view")
prop("C03", "Derived images apply exactly their formula at every pixel",
 "Every pixel of a derived image equals its defining formula applied to the pixels of its inputs at that same position: difference, product, signal-to-noise ratio, threshold subtraction relative to the local noise, masking by comparison with a mask value, arbitrary per-pixel function and constant image. Size equals that of the input, and the value does not depend on which region of the image is requested.",
 ["inputs"], "all images, sizes, pixel values, masks, thresholds and requested regions",
 "Tests exercise a few fixed pixels for some of these images and none for others; the region offset arithmetic of each one is separate code.",
 [SF+"Image/ProcessedImage.h",SF+"Image/ThresholdedImage.h",SF+"Image/MaskedImage.h",SF+"Image/FunctionalImage.h",SF+"Image/ConstantImage.h"],
 [("ProcessedImage",SF+"Image/ProcessedImage.h"),("ThresholdedImage",SF+"Image/ThresholdedImage.h"),("MaskedImage",SF+"Image/MaskedImage.h"),("FunctionalImage",SF+"Image/FunctionalImage.h")], "pixels of the derived image")
prop("C04", "Pixel storage returns the last value written and changes nothing else",
 "In an image held in memory, in an image region and in an image tile, reading a pixel returns the value last written to that pixel (or the value it was built from), and writing one pixel changes no other pixel. A region cut out of a stored image or of another region shows exactly the requested rectangle, copies are independent of their source, and a modified tile is written back exactly once.",
 ["inputs","histories"], "all image and region sizes, all coordinates in range, all rectangles, all sequences of writes and reads",
 "Tests write and read a handful of coordinates of fixed small images; row stride and offset mistakes are invisible on square or full-width data.",
 [SF+"Image/VectorImage.h",SF+"Image/ImageChunk.h",SF+"Image/ImageTile.h","SEFramework/src/lib/Image/ImageTile.cpp"],
 [("VectorImage",SF+"Image/VectorImage.h"),("ImageChunk / UniversalImageChunk",SF+"Image/ImageChunk.h"),("ImageTile",SF+"Image/ImageTile.h")], "pixel reads after writes")
prop("C05", "Cached pixel access returns the image's own pixels in any access order",
 "Reading pixels through the caching accessor gives, for every order of accesses, every access-direction hint and every cache size, exactly the pixel value of the underlying image at the requested position. The accessor never asks the image for a region that leaves the image.",
 ["histories","inputs"], "all images and sizes, all sequences of in-bounds pixel reads, all hints and cache sizes",
 "The tests walk one image in three fixed patterns; a stale or shifted cached region only shows for particular sequences of positions.",
 [SF+"Image/ImageAccessor.h"], [("ImageAccessor",SF+"Image/ImageAccessor.h")], "values returned by the accessor")
prop("C06", "Bad pixels are replaced from good neighbours and good pixels are kept",
 "When pixels whose variance reaches the threshold are interpolated, every good pixel keeps its exact value and every bad pixel takes the value of the nearest good pixel to its left in the same row or above it in the same column within the maximum gap (the left one when both are equally far); if there is none it keeps its own value. The result does not depend on the requested region, and pixels outside the image are never read.",
 ["inputs"], "all images, variances, thresholds, gap limits and positions, including image borders and gaps wider than the limit",
 "No test covers it; the outcome depends on the pattern of bad pixels around each position.",
 [SF+"Image/InterpolatedImageSource.h"], [("InterpolatedImageSource",SF+"Image/InterpolatedImageSource.h")], "tiles produced by the interpolated image source")
prop("C07", "Detection filtering is a normalised weighted mean over usable pixels",
 "A filtered detection pixel is the kernel-weighted mean of the neighbouring pixels that lie inside the image and are usable (variance below the threshold), divided by the kernel weight actually used; unusable pixels never contribute. If the pixel itself is unusable, the result is zero. The kernel is applied point-mirrored, and the result does not depend on the requested region.",
 ["inputs"], "all images, variances, kernels of odd size, thresholds, and requested regions",
 "No test in the built part exercises it; border and mask handling depend on the position and on the requested region.",
 ["SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp"], [("generateTile","SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp")], "filtered tiles")
prop("C08", "The median filter of the background grid returns true window medians",
 "For every image, odd window size and position, the filtered value is the median of the values in the window centred there, the window being shortened by the same number of cells on both sides where it would cross the border. With a filtering threshold, value and noise of a cell are replaced together by their medians, only where the difference between median and value reaches the threshold; elsewhere both keep their original value. The output has the size of the input.",
 ["inputs"], "all images, sizes, odd window sizes and thresholds",
 "Four tests use one 3x3 grid.",
 ["SEImplementation/SEImplementation/Background/SE/MedianFilter.h"], [("MedianFilter","SEImplementation/SEImplementation/Background/SE/MedianFilter.h")], "filtered grid")
prop("C09", "Undefined background cells are filled from the closest defined cells",
 "Replacing undefined cells leaves every defined cell unchanged and gives each undefined cell the mean of all the defined cells at the smallest distance from it. After the replacement no undefined cell remains if at least one cell was defined.",
 ["inputs"], "all grids, sizes, undefined-value markers and positions",
 "Two tests with one or two undefined cells in one small grid.",
 ["SEImplementation/src/lib/Background/SE/ReplaceUndefImage.cpp"], [("ReplaceUndef","SEImplementation/src/lib/Background/SE/ReplaceUndefImage.cpp")], "replaced grid")
prop("C10", "Aperture geometry: weights, radius and bounding box agree",
 "For circular, elliptical and coordinate-transformed apertures, a pixel's weight is between 0 and 1. For a circle it is 0 for every pixel whose square lies fully outside and 1 for every pixel whose square lies fully inside; for an ellipse it is 1 exactly where the quadratic form of the pixel position, which is also the reported squared radius, does not exceed the limit. The bounding box of a circle or ellipse contains every pixel with non-zero weight. A transformed aperture is the original aperture seen through the inverse of the transformation: weight and radius are those of the original at the back-transformed offset, and its box contains every pixel whose centre is mapped back into the original's box.",
 ["inputs"], "all radii, ellipse shapes, non-singular transformations, centres and pixel positions",
 "Tests check three transforms of one circle at a few points.",
 ["SEFramework/src/lib/Aperture/CircularAperture.cpp","SEFramework/src/lib/Aperture/EllipticalAperture.cpp","SEFramework/src/lib/Aperture/TransformedAperture.cpp"],
 [("CircularAperture","SEFramework/src/lib/Aperture/CircularAperture.cpp"),("EllipticalAperture","SEFramework/src/lib/Aperture/EllipticalAperture.cpp"),("TransformedAperture","SEFramework/src/lib/Aperture/TransformedAperture.cpp")], "area, radius and pixel bounds of apertures")
prop("C11", "Aperture photometry adds up exactly the usable aperture pixels",
 "The measured flux, variance and area are the weight-by-weight sums over the aperture's pixels inside the image; a pixel whose variance exceeds the threshold is left out of flux and variance or, with symmetry replacement, takes the value and variance of its point-symmetric pixel (rounded to the nearest pixel, inside the measured box) when that one is usable. The bad area counts the aperture's pixels above the variance threshold. No pixel outside the image is read, and an aperture entirely outside the image measures nothing and is flagged as such.",
 ["inputs"], "all images, variances, thresholds, apertures and centres, inside, across and outside the image border",
 "Five tests with constant 'ones' images and one circle.",
 ["SEFramework/src/lib/Aperture/FluxMeasurement.cpp"], [("measureFlux","SEFramework/src/lib/Aperture/FluxMeasurement.cpp")], "flux measurement result")
prop("C12", "Aperture flags report border, contamination and neighbours exactly",
 "An aperture whose bounding box reaches beyond the image carries the boundary flag, and one that stays inside does not; the biased and neighbour flags are set exactly when the number of aperture pixels that are bad (variance above the threshold), respectively belong to other sources, exceeds a tenth of the total aperture weight inside the image. The neighbour map marks exactly the pixels of the requested rectangle that are above the detection threshold and are not in the source's own pixel list.",
 ["inputs"], "all images, apertures, centres, source pixel lists and thresholds",
 "Tests cover three placements of one circle and one two-source scene.",
 ["SEFramework/src/lib/Aperture/Flagging.cpp","SEFramework/src/lib/Aperture/NeighbourInfo.cpp"],
 [("computeFlags","SEFramework/src/lib/Aperture/Flagging.cpp"),("NeighbourInfo","SEFramework/src/lib/Aperture/NeighbourInfo.cpp")], "flags and neighbour images")
prop("C13", "Combining, testing and printing source flags never loses a flag",
 "Combining flag sets keeps exactly the flags present in either operand, intersecting keeps exactly those in both, a disabled flag contributes nothing, and conversion to integers is exact and keeps distinct flags distinct. Printing any combination of defined flags names every flag that is set, no flag that is not, and never fails.",
 ["inputs"], "all combinations of all defined flags",
 "No test covers flag algebra or printing.",
 ["SEFramework/SEFramework/Source/SourceFlags.h"], [("Flags operators and output","SEFramework/SEFramework/Source/SourceFlags.h")], "flag values and printed text")
prop("C14", "Quad-tree range queries return exactly the points within range",
 "For every history of insertions and removals, a range query around any centre returns exactly the stored points whose distance to the centre does not exceed the range, each as often as it is stored. Insertion always terminates, also for repeated points, and removing a point removes that point only.",
 ["histories","inputs"], "all sequences of insertions and removals, all point positions including duplicates and collinear points, all centres and ranges",
 "Tests use a few fixed point sets and queries around tree corners.",
 ["SEUtils/SEUtils/QuadTree.h","SEUtils/SEUtils/_impl/QuadTree.icpp"], [("QuadTree","SEUtils/SEUtils/_impl/QuadTree.icpp")], "results of range queries")
prop("C15", "K-d tree queries agree with brute force",
 "A k-d tree built from any set of points answers a fixed-radius query with exactly the points whose distance to the query point is less than the radius, each as often as it was given, for any dimension, any data (including repeated coordinates) and any query point.",
 ["inputs"], "all point sets, query points and radii",
 "No test covers the k-d tree.",
 ["SEUtils/SEUtils/KdTree.h","SEUtils/SEUtils/_impl/KdTree.icpp"], [("KdTree","SEUtils/SEUtils/_impl/KdTree.icpp")], "query results")
prop("C16", "The space-filling curve visits every cell once, moving to a neighbour",
 "On a square grid whose side is a power of two, the curve visits every cell exactly once: different indices give different cells, every cell lies inside the grid, and cells with consecutive indices are edge neighbours. A size that is not a power of two is rounded up to the smallest power of two that is not below it.",
 ["inputs"], "all power-of-two grid sides, all cells, all sizes",
 "Only the rounding is tested, on a few values.",
 ["SEUtils/SEUtils/HilbertCurve.h","SEUtils/SEUtils/Misc.h"], [("Hilbert curve index","SEUtils/SEUtils/HilbertCurve.h"),("power-of-two rounding","SEUtils/SEUtils/Misc.h")], "curve indices")
prop("C17", "Parameter transformations are inverse to each other with exact derivative",
 "Every transformation between a physical parameter value and the value seen by the fitting engine is invertible: converting a value in its range to the engine and back returns the value (up to the saturation of the engine range at +-50 for the bounded ones), and the engine side always maps into the declared range. The derivative reported for the transformation is the derivative of the engine-to-physical map.",
 ["inputs"], "all parameter values in range, all range limits and normalisation factors",
 "No test covers the converters.",
 ["ModelFitting/src/lib/Parameters/NeutralConverter.cpp","ModelFitting/src/lib/Parameters/NormalizedConverter.cpp","ModelFitting/src/lib/Parameters/SigmoidConverter.cpp","ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp"],
 [("coordinate converters","ModelFitting/src/lib/Parameters/")], "converted values and derivatives")
prop("C18", "Dependent parameters and observers always see the current value",
 "After any sequence of parameter changes, a parameter computed from others equals its defining function of their current values, also through chains of dependencies, and every registered observer has been told the latest value while removed observers are told nothing. A fitted parameter's physical and engine values always correspond through its transformation.",
 ["histories"], "all sequences of value changes, observer registrations and removals, all dependency functions",
 "Tests cover fixed short sequences of assignments.",
 ["ModelFitting/src/lib/Parameters/BasicParameter.cpp","ModelFitting/src/lib/Parameters/EngineParameter.cpp","ModelFitting/ModelFitting/Parameters/DependentParameter.h"],
 [("BasicParameter","ModelFitting/src/lib/Parameters/BasicParameter.cpp"),("EngineParameter","ModelFitting/src/lib/Parameters/EngineParameter.cpp"),("DependentParameter","ModelFitting/ModelFitting/Parameters/DependentParameter.h")], "parameter values")
prop("C19", "The fit engine exchanges parameters and residuals without loss or mixing",
 "Parameter values passed between model and fit engine keep registration order and are exchanged without loss, and covariances are converted entry by entry with the transformation derivatives of both parameters. The residual vector is the concatenation, in registration order, of all residual blocks, each of the size it announces, and prior residuals are the weighted difference between the current and the expected value.",
 ["inputs","histories"], "all numbers of parameters and residual blocks, all values and weights",
 "No test covers parameter management or the residual estimator.",
 ["ModelFitting/src/lib/Engine/EngineParameterManager.cpp","ModelFitting/src/lib/Engine/ResidualEstimator.cpp","ModelFitting/src/lib/Engine/WorldValueResidual.cpp","ModelFitting/src/lib/Engine/EngineValueResidual.cpp"],
 [("EngineParameterManager","ModelFitting/src/lib/Engine/EngineParameterManager.cpp"),("ResidualEstimator","ModelFitting/src/lib/Engine/ResidualEstimator.cpp")], "values, residuals and covariances handed to the engine")
prop("C20", "Model decorators place light consistently and conserve it",
 "A scaled, rotated or linearly transformed model component evaluates its inner component at the correspondingly back-transformed position, and the point samples it emits lie at the forward-transformed positions of the inner samples, in the same order, with the light each sample carries scaled consistently with the decorator. Scaling, rotation and transformation use the parameters' current values, also after they change.",
 ["inputs","histories"], "all scales, angles, non-singular transformations, positions and inner components, also after parameter changes",
 "Tests cover profiles and sharp-region managers only, not the decorators.",
 ["ModelFitting/src/lib/Models/ScaledModelComponent.cpp","ModelFitting/src/lib/Models/RotatedModelComponent.cpp","ModelFitting/src/lib/Models/TransformModelComponent.cpp","ModelFitting/src/lib/Models/SersicProfile.cpp"],
 [("ScaledModelComponent","ModelFitting/src/lib/Models/ScaledModelComponent.cpp"),("RotatedModelComponent","ModelFitting/src/lib/Models/RotatedModelComponent.cpp"),("TransformModelComponent","ModelFitting/src/lib/Models/TransformModelComponent.cpp")], "model values and samples")
prop("C21", "Convolution: direct sum with border rule, and sufficient transform sizes",
 "Direct convolution sets every pixel to the sum over the kernel of kernel weight times the image pixel at the opposite offset, border pixels being taken by the border rule. The size chosen for a Fourier transform is never smaller than the size asked for.",
 ["inputs"], "all image and kernel sizes and contents; all sizes",
 "The built tests only transform fixed images forth and back.",
 ["SEFramework/SEFramework/Convolution/DirectConvolution.h","SEFramework/src/lib/FFT/FFT.cpp"], [("DirectConvolution","SEFramework/SEFramework/Convolution/DirectConvolution.h"),("fftRoundDimension","SEFramework/src/lib/FFT/FFT.cpp")], "convolved pixels; transform sizes")
prop("C22", "Property keys identify a property type and index, nothing else",
 "Two property keys are equal exactly when both the property type and the index agree; equal keys have equal hashes, and the ordering of keys is a strict total order consistent with equality. A property holder returns exactly the property last set under the key asked for and reports an unset key as missing.",
 ["inputs","histories"], "all property types and indices; all sequences of set, query and clear",
 "One test compares a few fixed keys.",
 ["SEFramework/SEFramework/Property/PropertyId.h","SEFramework/src/lib/Property/PropertyHolder.cpp"], [("PropertyId","SEFramework/SEFramework/Property/PropertyId.h"),("PropertyHolder","SEFramework/src/lib/Property/PropertyHolder.cpp")], "key comparison and property lookup")
prop("C23", "Adding a model image to a frame places it exactly",
 "Adding a source image to a frame at unit scale and a position aligned with the pixels adds each source pixel that has its whole interpolation neighbourhood inside the source (three pixels before it and four after it on each axis) unchanged to the frame pixel it falls on, and changes no other frame pixel. At any scale and position the resampling reads nothing outside the source and nothing outside the source's footprint in the frame changes.",
 ["inputs"], "all frame and source sizes, positions (also partly or fully outside the frame), scales and contents",
 "Two tests copy one odd and one even image to one place.",
 ["SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp","SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h"], [("image traits: resize and add","SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp")], "frame pixels")
prop("C24", "Pixel coordinates and rectangles follow exact integer geometry",
 "Coordinate addition, subtraction and comparison are exact, scaling rounds towards zero, and equal coordinates have equal hashes. Clipping a coordinate to a box moves it to the nearest pixel of the box and reports whether it moved. A rectangle's width and height agree with its corners, and a rectangle that was given no corners is empty.",
 ["inputs","histories"], "all coordinates and rectangles",
 "Two tests add and scale fixed coordinates.",
 ["SEUtils/SEUtils/PixelRectangle.h","SEUtils/SEUtils/PixelCoordinate.h"], [("PixelRectangle","SEUtils/SEUtils/PixelRectangle.h"),("PixelCoordinate","SEUtils/SEUtils/PixelCoordinate.h")], "coordinates and rectangles")
prop("C25", "Tiles served from the image cache always hold the image's pixels",
 "Reading an image through the tile cache returns the pixels of the underlying source for every access history and every cache size, and modified tiles are written back before they are evicted or the program ends.",
 ["histories","schedules"], "all sequences of tile accesses, cache sizes and evictions, from several threads",
 "The cache is outside the built tests.",
 ["SEFramework/src/lib/Image/TileManager.cpp","SEFramework/src/lib/Image/BufferedImage.cpp"], [("TileManager","SEFramework/src/lib/Image/TileManager.cpp"),("BufferedImage","SEFramework/src/lib/Image/BufferedImage.cpp")], "pixels read through buffered images")
prop("C26", "The catalogue lists every source once and in the order of detection",
 "Sources leave the sorter in ascending order of their identifier, each exactly once, whatever order and thread the measurements finish in.",
 ["schedules","histories"], "all completion orders of measurement threads",
 "The measurement pipeline is outside the built tests and its order depends on the schedule.",
 ["SEMain/src/lib/Sorter.cpp","SEFramework/src/lib/Pipeline/Measurement.cpp"], [("Sorter","SEMain/src/lib/Sorter.cpp")], "output catalogue")
prop("C27", "Every detected pixel ends up in exactly one source and one group",
 "Segmentation assigns each pixel above the threshold to exactly one connected source, and grouping, partitioning and flushing lose, duplicate or reorder no source.",
 ["inputs","histories"], "all images and thresholds, all source streams",
 "Segmentation and grouping are outside the built tests.",
 ["SEImplementation/src/lib/Segmentation/LutzList.cpp","SEFramework/src/lib/Pipeline/SourceGrouping.cpp"], [("Lutz segmentation","SEImplementation/src/lib/Segmentation/"),("SourceGrouping","SEFramework/src/lib/Pipeline/SourceGrouping.cpp")], "sources and groups emitted")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
