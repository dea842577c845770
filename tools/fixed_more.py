FIXED_MORE = [
 ("C01", "don't reserve space for more threads than are used", "convert() with a very large thread count threw std::bad_alloc (also the tool's -j -5)"),
 ("C23", "don't accept empty, negative, or out of range indices", "-a -1, -C -1, -M 4294967295 and empty indices crashed the tool or were taken as 0"),
 ("C23", "report image indices that are too large", "-a 999999999 file aborted with std::bad_alloc"),
 ("C23", "reject custom mip levels that are too large", "custom mip levels of 32 and above shifted out of range and overran the level counts"),
 ("C23", "check the depth of custom mips against the number of cube maps", "custom mips for cube maps that do not exist were accepted and ignored"),
 ("C23", "reject sizes that aren't positive", "-r 0 0, and negative sizes taken as internal constants, were accepted"),
 ("C23", "don't allow image lists to be mixed", "-I list followed by -a/-c/-C was accepted"),
 ("C23", "don't ignore the type or an unknown format", "-f R8 -f bogus was accepted, and -t before -f was ignored for packed float formats"),
 ("C22", "resize rotated normal maps for custom mips", "custom mips of rotated normal maps were resized to the unrotated size first"),
 ("C23", "report failures to generate mipmaps", "the tool wrote a texture without mipmaps and exited 0 when mipmaps could not be generated"),
 ("C23", "don't accept empty numbers", "empty arguments of -j, -n and --rotate were taken as 0"),
 ("C01", "custom mips whose format cannot be resized", "generateMipmaps() with a custom mip of an integer, Double or Complex format and a Cubic, CatmullRom or BSpline filter left an invalid level, or read through a null pointer for 3D textures"),
 ("C01", "reject image sizes that FreeImage cannot hold", "Image::initialize() and resize() with a size above 2^31 - 1 gave an image with a smaller bitmap, overrun by resize()"),
 ("C26", "describe block-compressed DDS files by their linear size", "DDS files of block-compressed formats were flagged as uncompressed with the pitch of a row of blocks instead of the size of the top level"),
 ("C11", "load bilevel and white-is-zero", "8-bit grayscale images with white as 0 (TIFF, BMP) loaded inverted and 1-bit black and white images could not be loaded"),
 ("C27", "allow images to be saved from multiple threads", "saving images from several threads spuriously failed for formats with several extensions (.jpg, .tga): FreeImage_GetFIFFromFilename() uses strtok()"),
 ("C25", "don't write uninitialized memory when saving images", "saved TIFF images could hold a byte of uninitialised memory in their padding, since a8dfbb9"),
 ("C27", "allow XPM images to be saved from multiple threads", "XPM images saved from several threads had colours of one another: the encoder uses a static buffer"),
]
