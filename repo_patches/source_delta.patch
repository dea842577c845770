From fed954820c9c2caf225f1545185d0cc81ca1cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 01/47] fix: clamp NaN to the minimum so converting it to an
 integer is defined

---
 lib/src/Shared.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Shared.h b/lib/src/Shared.h
index 6d0a7f7..a80d7de 100644
--- a/lib/src/Shared.h
+++ b/lib/src/Shared.h
@@ -29,7 +29,8 @@ namespace cuttlefish
 
 inline float clamp(float v, float minVal, float maxVal)
 {
-	if (v < minVal)
+	// Written so NaN also gives the minimum, since casting it to an integer is undefined.
+	if (!(v >= minVal))
 		return minVal;
 	else if (v > maxVal)
 		return maxVal;
-- 
2.43.0


From 368bfe11069ff5e5024ef79b36886b8203d8bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 02/47] fix: saturate 32-bit integer conversion without
 overflowing the cast

---
 lib/src/Shared.h            | 9 +++++++++
 lib/src/StandardConverter.h | 7 ++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/Shared.h b/lib/src/Shared.h
index a80d7de..3e803ef 100644
--- a/lib/src/Shared.h
+++ b/lib/src/Shared.h
@@ -37,6 +37,15 @@ inline float clamp(float v, float minVal, float maxVal)
 	return v;
 }
 
+inline double clamp(double v, double minVal, double maxVal)
+{
+	if (!(v >= minVal))
+		return minVal;
+	else if (v > maxVal)
+		return maxVal;
+	return v;
+}
+
 template <typename T>
 bool write(std::ostream& stream, const T& value)
 {
diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..a510f22 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -163,8 +163,9 @@ public:
 
 	void process(unsigned int x, unsigned int, ThreadData*) override
 	{
-		const float minVal = static_cast<float>(std::numeric_limits<T>::min());
-		const float maxVal = static_cast<float>(std::numeric_limits<T>::max());
+		// Float cannot represent the limits of 32-bit integers.
+		const double minVal = static_cast<double>(std::numeric_limits<T>::min());
+		const double maxVal = static_cast<double>(std::numeric_limits<T>::max());
 
 		T* curData = reinterpret_cast<T*>(data().data()) + x*batchSize*C;
 		unsigned int row = x*batchSize/image().width();
@@ -184,7 +185,7 @@ public:
 			for (unsigned int c = 0; c < C; ++c)
 			{
 				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+					std::round(clamp(static_cast<double>(scanline[col*4 + c]), minVal, maxVal)));
 			}
 		}
 	}
-- 
2.43.0


From 78c6c815d774ba0857d5212c5949b37c2ee71b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 03/47] fix: encode values outside the normalized range of
 B10G11R11_UFloat

---
 lib/src/StandardConverter.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index d521474..2d72074 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -15,10 +15,30 @@
  */
 
 #include "StandardConverter.h"
+#include <cstring>
 
 namespace cuttlefish
 {
 
+// glm's packing functions only support normalized values within the range of the packed float.
+static std::uint32_t packUFloat(float value, unsigned int mantissaBits)
+{
+	const std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | ((1U << mantissaBits) - 1);
+	else if (std::isinf(value) && value > 0.0f)
+		return infinity;
+	else if (value <= 0.0f)
+		return 0;
+	else if (value < std::ldexp(1.0f, -14))
+		return static_cast<std::uint32_t>(std::ldexp(value, 14 + static_cast<int>(mantissaBits)));
+
+	std::uint32_t bits;
+	std::memcpy(&bits, &value, sizeof(bits));
+	bits = (bits >> (23 - mantissaBits)) - ((127U - 15U) << mantissaBits);
+	return std::min(bits, infinity - 1);
+}
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -439,7 +459,8 @@ void B10R11R11UFloatConverter::process(unsigned int x, unsigned int, ThreadData*
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF2x11_1x10(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packUFloat(scanline[col].r, 6) | (packUFloat(scanline[col].g, 6) << 11) |
+			(packUFloat(scanline[col].b, 5) << 22);
 	}
 }
 
-- 
2.43.0


From c4bef7828eaf470bc4bfd990074eb686259041c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 04/47] fix: support the full range and NaN for E5B9G9R9_UFloat

---
 lib/src/StandardConverter.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index 2d72074..7a194cc 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -39,6 +39,30 @@ static std::uint32_t packUFloat(float value, unsigned int mantissaBits)
 	return std::min(bits, infinity - 1);
 }
 
+// glm::packF3x9_E1x5() clamps to half of the maximum value and doesn't support NaN.
+static std::uint32_t packSharedExponent(const ColorRGBAf& color)
+{
+	const float maxValue = 65408.0f;
+	const float r = clamp(color.r, 0.0f, maxValue);
+	const float g = clamp(color.g, 0.0f, maxValue);
+	const float b = clamp(color.b, 0.0f, maxValue);
+	const float maxChannel = std::max(r, std::max(g, b));
+
+	// frexp() gives a mantissa in the range [0.5, 1).
+	int exponent = 0;
+	std::frexp(maxChannel, &exponent);
+	exponent = maxChannel > 0.0f ? std::max(exponent, -15) : -15;
+	if (std::floor(std::ldexp(maxChannel, 9 - exponent) + 0.5f) >= 512.0f)
+		++exponent;
+
+	auto pack = [exponent](float value)
+	{
+		return static_cast<std::uint32_t>(std::floor(std::ldexp(value, 9 - exponent) + 0.5f));
+	};
+	return pack(r) | (pack(g) << 9) | (pack(b) << 18) |
+		(static_cast<std::uint32_t>(exponent + 15) << 27);
+}
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -481,7 +505,7 @@ void E5B9G9R9UFloatConverter::process(unsigned int x, unsigned int, ThreadData*)
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF3x9_E1x5(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packSharedExponent(scanline[col]);
 	}
 }
 
-- 
2.43.0


From 1819458e6730573bdc0d9493a7898cc0c57d2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 05/47] fix: report the blue mask rather than the green mask

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..753f89f 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -743,7 +743,7 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-- 
2.43.0


From 732319453826deb8d4aff2f09e62a62d9c15fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 06/47] fix: keep the sRGB grayscale value in setPixel()

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 753f89f..f24904d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From 103460251e2eef16c963d0503fbbf9b58534025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 07/47] fix: saturate and round integer pixels rather than
 overflowing the cast

---
 lib/src/Image.cpp | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f24904d..b320908 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -312,13 +312,19 @@ double toDoubleNorm6(unsigned int value)
 
 double clamp(double d)
 {
-	return std::max(std::min(d, 1.0), 0.0);
+	// Argument order gives 0 for NaN.
+	return std::min(std::max(0.0, d), 1.0);
 }
 
 template <typename T>
-T clamp(T v)
+T fromDouble(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	// NaN gives 0.
+	if (std::isnan(d))
+		return 0;
+	return static_cast<T>(std::round(std::max(std::min(d,
+		static_cast<double>(std::numeric_limits<T>::max())),
+		static_cast<double>(std::numeric_limits<T>::lowest()))));
 }
 
 template <typename T>
@@ -557,20 +563,20 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDouble<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDouble<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDouble<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDouble<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +679,20 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				fromDouble<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				fromDouble<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				fromDouble<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				fromDouble<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From 0631dab7fa4759274ac3b4f5d561e908762a27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 08/47] fix: report the channel shifts of 24 and 32 BPP images

---
 lib/src/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index b320908..31a7437 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -753,21 +753,21 @@ struct Image::Impl
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From d7aeb0d7652ebee1840bc895986f19957586e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 09/47] fix: convert 16-BPP RGB images to RGBAF with the
 correct values

---
 lib/src/Image.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 31a7437..0b38408 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1212,8 +1212,9 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				break;
 			case Format::RGBAF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-				// clamping HDR images.
-				if (!needFloatConvertFallback(srcFormat))
+				// clamping HDR images. FreeImage conversion is also incorrect for 16-BPP RGB
+				// formats.
+				if (!needFloatConvertFallback(srcFormat) && !isRGB16BPPFormat(srcFormat))
 				{
 					image.m_impl.reset(Impl::create(
 						FreeImage_ConvertToRGBAF(m_impl->image), m_impl->colorSpace, dstFormat));
-- 
2.43.0


From a6d151b49385de6fa8ff0210d92827bee70a2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 10/47] fix: preserve values when converting 8-bit images to 16
 bits

---
 lib/src/Image.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0b38408..ba330fe 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -206,6 +206,22 @@ bool isRGB16BPPFormat(Image::Format format)
 	}
 }
 
+bool needUInt16ConvertFallback(Image::Format format)
+{
+	// FreeImage shifts lower bit depths up to 16 bits, so the maximum value isn't preserved.
+	switch (format)
+	{
+		case Image::Format::Gray8:
+		case Image::Format::RGB5:
+		case Image::Format::RGB565:
+		case Image::Format::RGB8:
+		case Image::Format::RGBA8:
+			return true;
+		default:
+			return false;
+	}
+}
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
@@ -1169,7 +1185,8 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				}
 				break;
 			case Format::Gray16:
-				if (convertLinearGrayscale || isGrayscaleFormat(srcFormat))
+				if ((convertLinearGrayscale || isGrayscaleFormat(srcFormat)) &&
+					!needUInt16ConvertFallback(srcFormat))
 				{
 					image.m_impl.reset(Impl::create(
 						FreeImage_ConvertToType(m_impl->image, FIT_UINT16), m_impl->colorSpace,
@@ -1189,8 +1206,11 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 					FreeImage_ConvertTo24Bits(m_impl->image), m_impl->colorSpace, dstFormat));
 				break;
 			case Format::RGB16:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToRGB16(m_impl->image), m_impl->colorSpace, dstFormat));
+				if (!needUInt16ConvertFallback(srcFormat))
+				{
+					image.m_impl.reset(Impl::create(
+						FreeImage_ConvertToRGB16(m_impl->image), m_impl->colorSpace, dstFormat));
+				}
 				break;
 			case Format::RGBF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
@@ -1207,8 +1227,11 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 					FreeImage_ConvertTo32Bits(m_impl->image), m_impl->colorSpace, dstFormat));
 				break;
 			case Format::RGBA16:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToRGBA16(m_impl->image), m_impl->colorSpace, dstFormat));
+				if (!needUInt16ConvertFallback(srcFormat))
+				{
+					image.m_impl.reset(Impl::create(
+						FreeImage_ConvertToRGBA16(m_impl->image), m_impl->colorSpace, dstFormat));
+				}
 				break;
 			case Format::RGBAF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-- 
2.43.0


From 5ea16e804b34287f91681ef9325091846c83894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 11/47] fix: keep the pixel format when resizing 16-BPP RGB
 images

---
 lib/src/Image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ba330fe..586e201 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1401,6 +1401,14 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Double:
 		case Format::Complex:
 			break;
+		case Format::RGB5:
+		case Format::RGB565:
+			// FreeImage always gives a 24-BPP image for these formats.
+			image.m_impl.reset(Impl::create(
+				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
+				Format::Invalid));
+			image = image.convert(m_impl->format);
+			break;
 		default:
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-- 
2.43.0


From 343be27cc220d0536487be2520c5c93049402377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 12/47] fix: report that A4R4G4B4 has alpha

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..566e43d 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -470,6 +470,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From 313132b3b53b39b23461a311beb676fc5097f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 13/47] fix: assign the replacement of custom mip images

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 566e43d..8b9b596 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -294,6 +294,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
@@ -312,6 +313,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
-- 
2.43.0


From 5dc946f8a04b96870935f68c2f805044b1246f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 14/47] fix: keep the resumed mip image from leaking into the
 next face or layer

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 8b9b596..8444765 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1458,11 +1458,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From 8c14b94b44bf9b841dac4b16e291b634bdccb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 15/47] fix: convert custom mip images to the texture's color
 space

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 8444765..888d500 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1429,6 +1429,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1505,6 +1506,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 7096fd5e0a8c1a337db2829d73f24a9a47753bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 16/47] fix: only expect the available slices for each mip
 level of 3D textures

---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 888d500..0f9fd05 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1155,9 +1155,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(this->depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From c2f8a6fbb7e319d3de9840adba7d58ae103a83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 17/47] fix: leave 3D textures unchanged when the custom mip
 images are rejected

---
 lib/src/Texture.cpp | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 0f9fd05..beb49ea 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1344,6 +1344,33 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
+
+	if (m_impl->dimension == Dimension::Dim3D)
+	{
+		// Check the custom mips before changing anything. If one depth is provided, all must be, and
+		// have consistent replacement between them.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			for (unsigned int d = 1; d < mipDepth; ++d)
+			{
+				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
+				if ((firstCustomMip == customMipImages.end()) !=
+					(foundCustomMip == customMipImages.end()))
+				{
+					return false;
+				}
+
+				if (foundCustomMip != customMipImages.end() &&
+					foundCustomMip->second.replacement != firstCustomMip->second.replacement)
+				{
+					return false;
+				}
+			}
+		}
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
@@ -1358,26 +1385,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			unsigned int mipHeight = height(mip);
 			unsigned int mipDepth = depth(mip);
 
-			// Check for custom mips. If one depth is provided, all must be, and have consistent
-			// replacement between them.
-			bool customMips = false;
-			MipReplacement replacement = MipReplacement::Once;
-			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
-				if (foundCustomMip == customMipImages.end())
-				{
-					if (customMips)
-						return false;
-				}
-				else if (d == 0)
-				{
-					customMips = true;
-					replacement = foundCustomMip->second.replacement;
-				}
-				else if (!customMips || replacement != foundCustomMip->second.replacement)
-					return false;
-			}
+			// The custom mips were checked to be consistent across all depths above.
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			bool customMips = firstCustomMip != customMipImages.end();
+			MipReplacement replacement =
+				customMips ? firstCustomMip->second.replacement : MipReplacement::Once;
 
 			// Generated mips, either when no replacement is used or to resume previous state when
 			// replacement is set to once.
-- 
2.43.0


From fb027285adc8ee7985886e81f2590d67880dd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 18/47] fix: discard converted data when generating mipmaps

---
 lib/src/Texture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index beb49ea..f35d7b3 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1371,6 +1371,10 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 	}
 
+	// Any previously converted data no longer matches the mip levels.
+	m_impl->format = Format::Unknown;
+	m_impl->textures.clear();
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
-- 
2.43.0


From c7ba0b7d47f2d421bfaaf35edbf213c4b081fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 19/47] fix: keep alpha when adjusting the value range for
 16-BPP RGB images

---
 lib/src/Texture.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index f35d7b3..014c644 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1051,16 +1051,17 @@ void Texture::adjustImageValueRange(Image& image, Type type, Image::Format origI
 							}
 							break;
 						case Image::Format::RGB5:
-							multiply[0] = multiply[1] = multiply[2] = float((1 << 5) - 1);
+							multiply[0] = multiply[1] = multiply[2] = multiply[3] =
+								float((1 << 5) - 1);
 							if (type == Type::Int)
-								offset[0] = offset[1] = offset[2] = -float(1 << 4);
+								offset[0] = offset[1] = offset[2] = offset[3] = -float(1 << 4);
 							break;
 						case Image::Format::RGB565:
-							multiply[0] = multiply[2] = float((1 << 5) - 1);
+							multiply[0] = multiply[2] = multiply[3] = float((1 << 5) - 1);
 							multiply[1] = float((1 << 6) - 1);
 							if (type == Type::Int)
 							{
-								offset[0] = offset[2] = -float(1 << 4);
+								offset[0] = offset[2] = offset[3] = -float(1 << 4);
 								offset[1] = -float(1 << 5);
 							}
 							break;
-- 
2.43.0


From 7454b3015a306ebe920d727eb7d2c9c4dbda17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 20/47] fix: preserve files that cannot be saved and report
 failures to flush them

---
 lib/src/Texture.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 014c644..2b8ca91 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1666,10 +1666,22 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	if (fileType == FileType::Auto)
 		fileType = Texture::fileType(fileName);
 
+	// Don't truncate an existing file if it can't be saved.
+	if (fileType == FileType::Auto)
+		return SaveResult::UnknownFormat;
+	if (!isFormatValid(m_impl->format, m_impl->type, fileType))
+		return SaveResult::Unsupported;
+
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	SaveResult result = save(stream, fileType);
+	// Remaining data may only be written once the stream is closed.
+	stream.close();
+	if (result == SaveResult::Success && !stream)
+		return SaveResult::WriteError;
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From 4e644a77630450d17cc1bc16a4442e4552f0fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 21/47] fix: mark cube maps as complex DDS surfaces

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From 6845d7a2d57862d375f94923d9f2c2d2fbe5b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 22/47] fix: save signed R8G8 KTX textures with the signed type

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..faa1f85 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From 13ac07e7bb5fe528c9463a7a9996973cf379226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 23/47] fix: save B8G8R8A8 and A8B8G8R8 KTX textures with the
 type matching their byte order

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index faa1f85..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -381,7 +381,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -408,7 +408,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From c2aa650159fa7cb8d6a1557b3a5bec507d5dd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 24/47] fix: save integer KTX textures with the integer pixel
 format

---
 lib/src/SaveKtx.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..e1e0dc8 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -1183,6 +1183,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 	return false;
 }
 
+static std::uint32_t getIntegerFormat(std::uint32_t format)
+{
+	switch (format)
+	{
+		case GL_RED:
+			return GL_RED_INTEGER;
+		case GL_RG:
+			return GL_RG_INTEGER;
+		case GL_RGB:
+			return GL_RGB_INTEGER;
+		case GL_RGBA:
+			return GL_RGBA_INTEGER;
+		case GL_BGRA:
+			return GL_BGRA_INTEGER;
+		default:
+			return format;
+	}
+}
+
 bool isValidForKtx(Texture::Format format, Texture::Type type)
 {
 	FormatInfo info;
@@ -1198,6 +1217,10 @@ Texture::SaveResult saveKtx(const Texture& texture, std::ostream& stream)
 	if (!getFormatInfo(info, texture.format(), texture.type(), texture.colorSpace()))
 		return Texture::SaveResult::Unsupported;
 
+	// Integer internal formats must be paired with the integer variant of the pixel format.
+	if (texture.type() == Texture::Type::UInt || texture.type() == Texture::Type::Int)
+		info.format = getIntegerFormat(info.format);
+
 	if (!write(stream, header))
 		return Texture::SaveResult::WriteError;
 
-- 
2.43.0


From 5981dd03d47417f700e003cb8098d59951060872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 25/47] fix: read image streams with the semantics FreeImage
 expects

---
 lib/src/Image.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 586e201..22ae69c 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -225,8 +225,15 @@ bool needUInt16ConvertFallback(Image::Format format)
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
-	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	if (size == 0)
+		return 0;
+
+	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	auto readCount = static_cast<unsigned int>(stream->gcount()/size);
+	// As with stdio, reaching the end must not prevent seeking or getting the position.
+	if (stream->eof() && !stream->bad())
+		stream->clear();
+	return readCount;
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
-- 
2.43.0


From 3a30b40103c21b35347906626ec254cd7478cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 26/47] fix: report failures to write images to streams

---
 lib/src/Image.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 22ae69c..bc5146b 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -279,8 +279,8 @@ unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
 unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
+	stream->write(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	return stream->good() ? count : 0;
 }
 
 int seekOStream(fi_handle handle, long offset, int origin)
@@ -971,7 +971,9 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
+	// Not all FreeImage plugins check for write errors.
+	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false &&
+		stream.good();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From e1caa4d1eaaa880514b116d302aa4d3cadb2e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 27/47] fix: refuse to save images in formats that do not
 support their bit depth

---
 lib/src/Image.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index bc5146b..d9d2aa1 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -222,6 +222,14 @@ bool needUInt16ConvertFallback(Image::Format format)
 	}
 }
 
+bool canSave(FREE_IMAGE_FORMAT format, FIBITMAP* image)
+{
+	// FreeImage doesn't check the bit depth itself and may read past the end of the image data.
+	FREE_IMAGE_TYPE type = FreeImage_GetImageType(image);
+	return FreeImage_FIFSupportsExportType(format, type) &&
+		(type != FIT_BITMAP || FreeImage_FIFSupportsExportBPP(format, FreeImage_GetBPP(image)));
+}
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
@@ -956,7 +964,7 @@ bool Image::save(const char* fileName)
 		return false;
 
 	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
 	return FreeImage_Save(format, m_impl->image, fileName) != false;
@@ -968,7 +976,7 @@ bool Image::save(std::ostream& stream, const char* fileName)
 		return false;
 
 	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
 	// Not all FreeImage plugins check for write errors.
-- 
2.43.0


From 3785bcf4518cc931325f75594903d51738f7d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 28/47] fix: keep image streams usable after seeking past the
 end

---
 lib/src/Image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index d9d2aa1..f9b007c 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -268,7 +268,14 @@ int seekIStream(fi_handle handle, long offset, int origin)
 			return -1;
 	}
 	stream->seekg(offset, dir);
-	return stream->good() ? 0 : -1;
+	if (stream->good())
+		return 0;
+
+	// FreeImage may seek past the end when detecting the file type. Ensure the stream remains usable,
+	// but that no data can be read until the next seek.
+	stream->clear();
+	stream->seekg(0, std::ios_base::end);
+	return -1;
 }
 
 long tellIStream(fi_handle handle)
-- 
2.43.0


From a8dfbb9758104e8b60b8206d9f864d4787012d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 29/47] fix: save images through memory so every format and
 stream works

FreeImage needs to read and seek past the end of what was written for some formats, so
saving TIFF images to a stream or memory failed. Saving to a file truncated the existing
file even if the image couldn't be saved, and didn't report failures to write the data.
---
 lib/src/Image.cpp | 74 ++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f9b007c..2f48650 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -23,6 +23,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstdio>
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <ostream>
@@ -286,48 +287,6 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
-unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
-{
-	return 0;
-}
-
-unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
-	return stream->good() ? count : 0;
-}
-
-int seekOStream(fi_handle handle, long offset, int origin)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	std::ios_base::seekdir dir;
-	switch (origin)
-	{
-		case SEEK_SET:
-			dir = std::ios_base::beg;
-			break;
-		case SEEK_CUR:
-			dir = std::ios_base::cur;
-			break;
-		case SEEK_END:
-			dir = std::ios_base::end;
-			break;
-		default:
-			return -1;
-	}
-	stream->seekp(offset, dir);
-	return stream->good() ? 0 : -1;
-}
-
-long tellOStream(fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	return static_cast<long>(stream->tellp());
-}
-
-FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
-
 double toDoubleNorm(std::uint8_t value)
 {
 	return value/255.0;
@@ -974,7 +933,16 @@ bool Image::save(const char* fileName)
 	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
-	return FreeImage_Save(format, m_impl->image, fileName) != false;
+	// Encode the image first so an existing file isn't truncated if it can't be saved.
+	std::vector<std::uint8_t> data;
+	if (!save(data, fileName))
+		return false;
+
+	std::ofstream stream(fileName, std::ofstream::binary);
+	stream.write(reinterpret_cast<const char*>(data.data()), data.size());
+	// Remaining data may only be written once the stream is closed.
+	stream.close();
+	return stream.good();
 }
 
 bool Image::save(std::ostream& stream, const char* fileName)
@@ -986,9 +954,23 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
-	// Not all FreeImage plugins check for write errors.
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false &&
-		stream.good();
+	// Some file formats need to read and seek past the end of what was written, which not all streams
+	// support, so save to memory first.
+	FIMEMORY* memoryStream = FreeImage_OpenMemory();
+	if (!memoryStream)
+		return false;
+
+	BYTE* data;
+	DWORD size;
+	bool success = FreeImage_SaveToMemory(format, m_impl->image, memoryStream) &&
+		FreeImage_AcquireMemory(memoryStream, &data, &size);
+	if (success)
+	{
+		stream.write(reinterpret_cast<const char*>(data), size);
+		success = stream.good();
+	}
+	FreeImage_CloseMemory(memoryStream);
+	return success;
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From fbf43ec81d96314b87eebd7fe738822c5e78e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 30/47] fix: don't reserve space for more threads than are used
 to convert

---
 lib/src/Converter.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e6fbb77..a5c5854 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -511,12 +511,6 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 	std::vector<std::pair<unsigned int, unsigned int>> jobs;
 	std::vector<std::unique_ptr<ThreadData>> threadData;
 	std::vector<std::thread> threads;
-	if (threadCount > 1)
-	{
-		threadData.reserve(threadCount);
-		threads.reserve(threadCount);
-	}
-
 	textureData.resize(images.size());
 	for (unsigned int mip = 0; mip < images.size(); ++mip)
 	{
-- 
2.43.0


From 4ea0cba8357afa6a8e8f4cf6c4c2b348e11b0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 31/47] fix: don't accept empty, negative, or out of range
 indices on the command line

---
 tool/CommandLine.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..d2ce222 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -16,10 +16,12 @@
 
 #include "CommandLine.h"
 #include <cassert>
+#include <cctype>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -276,22 +278,30 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool strToIndex(std::size_t& index, const char* str)
 {
-	if (i >= argc - 1)
+	// strtoul() accepts empty strings and negative values.
+	if (!std::isdigit(static_cast<unsigned char>(*str)))
 		return false;
 
 	char* endPtr;
-	const char* str = argv[i + 1];
 	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	if (*endPtr || value > std::numeric_limits<unsigned int>::max())
 		return false;
 
-	++i;
 	index = value;
 	return true;
 }
 
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !strToIndex(index, argv[i + 1]))
+		return false;
+
+	++i;
+	return true;
+}
+
 bool strToCubeFace(Texture::CubeFace& face, const char* str)
 {
 	if (strcasecmp(str, "+x") == 0)
@@ -567,10 +577,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level;
+		if (!strToIndex(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -579,13 +587,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (strToIndex(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
-- 
2.43.0


From 86f28f23dcdcf0eb95464e1baa17cfa7ac7072d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 32/47] fix: report image indices that are too large rather
 than running out of memory

---
 tool/CommandLine.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index d2ce222..6cff14a 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -882,6 +882,14 @@ bool CommandLine::parse(int argc, const char** argv)
 			if (i < argc - 2)
 				readIndex(index, i, argc, argv);
 
+			// Each image takes an argument, so later indices can't all be provided.
+			if (index >= static_cast<std::size_t>(argc))
+			{
+				std::cerr << "error: index " << index << " out of range" << std::endl;
+				success = false;
+				break;
+			}
+
 			if (index >= images.size())
 				images.resize(index + 1);
 
@@ -958,6 +966,14 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			// Each image takes an argument, so later indices can't all be provided.
+			if (cubeIndex >= static_cast<std::size_t>(argc))
+			{
+				std::cerr << "error: index " << cubeIndex << " out of range" << std::endl;
+				success = false;
+				break;
+			}
+
 			Texture::CubeFace face;
 			if (!readCubeFace(face, i, argc, argv))
 			{
-- 
2.43.0


From c9cebd0685b22ed49ec16c811392bfedfdfd41da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 33/47] fix: reject custom mip levels that are too large before
 using them

---
 tool/CommandLine.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 6cff14a..aabffa2 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -763,6 +763,14 @@ bool validate(CommandLine& args)
 			return false;
 		}
 
+		// No texture can have this many levels. Check now since it's used to shift the depth.
+		if (customMip.first.mipLevel >= 32)
+		{
+			std::cerr << "error: level " << customMip.first.mipLevel <<
+				" for custom mip out of range" << std::endl;
+			return false;
+		}
+
 		unsigned int thisDepth = depth;
 		if (args.dimension == Texture::Dimension::Dim3D)
 		{
-- 
2.43.0


From eb4e29bf18af51cae340f9a3140e5aeeae8e768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 34/47] fix: check the depth of custom mips against the number
 of cube maps

---
 tool/CommandLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index aabffa2..fbad520 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -754,6 +754,8 @@ bool validate(CommandLine& args)
 	}
 
 	auto depth = static_cast<unsigned int>(args.images.size());
+	if (args.dimension == Texture::Dimension::Cube)
+		depth /= 6;
 	std::vector<unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
-- 
2.43.0


From 8ede36bf76deb70316d4841764d8dfc4878693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 35/47] fix: reject sizes that aren't positive

---
 tool/CommandLine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index fbad520..6339b35 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -474,8 +474,9 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 	else
 	{
 		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		long value = std::strtol(argv[i], &endPtr, 10);
+		if (endPtr != argv[i] + std::strlen(argv[i]) || value <= 0 ||
+			value > std::numeric_limits<int>::max())
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
-- 
2.43.0


From bb7259bea75b66502d07f74436337697a6d7451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 36/47] fix: don't allow image lists to be mixed with other
 inputs

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 6339b35..8eac579 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1039,6 +1039,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			if (!readImageList(images, argv[++i]))
 			{
 				success = false;
-- 
2.43.0


From 55d64da349a7e1db07fe5269b1187fb36205bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 37/47] fix: don't ignore the type or an unknown format based
 on the order of the options

---
 tool/CommandLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 8eac579..39524c8 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1312,6 +1312,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			format = Texture::Format::Unknown;
 			for (const auto& formatInfo : formatMap)
 			{
 				if (strcasecmp(formatInfo.second, argv[i]) == 0)
@@ -1349,6 +1350,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			typeSet = true;
 			if (strcasecmp(argv[i], "unorm") == 0)
 				type = Texture::Type::UNorm;
 			else if (strcasecmp(argv[i], "snorm") == 0)
-- 
2.43.0


From 1ed28c06a29d8893b9d8e865810114b1ef9acd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 38/47] fix: resize rotated normal maps for custom mips to the
 rotated size

---
 tool/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..1cf4ed8 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -229,7 +229,15 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 		image = image.createNormalMap(options, args.normalHeight);
 
 		if (normalWidth != thisWidth || normalHeight != thisHeight)
+		{
+			// The dimensions are swapped if rotated on its side.
+			if (args.rotate && args.rotateAngle != Image::RotateAngle::CW180 &&
+				args.rotateAngle != Image::RotateAngle::CCW180)
+			{
+				std::swap(thisWidth, thisHeight);
+			}
 			image = image.resize(thisWidth, thisHeight, args.resizeFilter);
+		}
 
 		// Image no longer matches the original input.
 		origImageFormat = image.format();
-- 
2.43.0


From d615718a3f8680dbb50d2013200825afea34034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 39/47] fix: report failures to generate mipmaps

---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 1cf4ed8..16af1cf 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -378,7 +378,11 @@ bool saveTexture(
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From 59072320d79f7afbc308fc76b65f2401b38d262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 40/47] fix: don't accept empty numbers on the command line

---
 tool/CommandLine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 39524c8..b4ce9b8 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -841,7 +841,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			{
 				char* endPtr;
 				unsigned long jobsl = std::strtol(argv[i + 1], &endPtr, 10);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
+				if (*argv[i + 1] && endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
 				{
 					jobs = static_cast<unsigned int>(jobsl);
 					++i;
@@ -1152,7 +1152,7 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			char* endPtr;
 			long angle = std::strtol(argv[++i], &endPtr, 10);
-			if (endPtr != argv[i] + std::strlen(argv[i]) || angle % 90 != 0)
+			if (!*argv[i] || endPtr != argv[i] + std::strlen(argv[i]) || angle % 90 != 0)
 			{
 				std::cerr << "error: rotate angle must be a multiple of 90 degrees" << std::endl;
 				success = false;
@@ -1219,7 +1219,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			{
 				char* endPtr;
 				double h = std::strtod(argv[i + 1], &endPtr);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
+				if (*argv[i + 1] && endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
 				{
 					normalHeight = h;
 					++i;
-- 
2.43.0


From 6b55e67f0111349723bdb394b59dfda58c297f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 41/47] fix: custom mips whose format cannot be resized with
 the filter are no longer left invalid

---
 lib/src/Texture.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 2b8ca91..0fc4300 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -226,6 +226,19 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	}
 }
 
+Image createCustomMip(const Image& image, unsigned int width, unsigned int height,
+	ColorSpace colorSpace, Image::ResizeFilter filter)
+{
+	Image mipImage = image.resize(width, height, filter);
+	// Not every format may be resized with every filter.
+	if (!mipImage)
+		mipImage = image.convert(Image::Format::RGBAF).resize(width, height, filter);
+	if (mipImage.format() != Image::Format::RGBAF)
+		mipImage = mipImage.convert(Image::Format::RGBAF);
+	mipImage.changeColorSpace(colorSpace);
+	return mipImage;
+}
+
 } // namespace
 
 using FaceImageList = std::vector<Image>;
@@ -1442,12 +1455,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 				{
 					auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
 					assert(foundCustomMip != customMipImages.end());
-					Image& thisMipImage = mipImages[d];
-					thisMipImage = foundCustomMip->second.image->resize(
-						mipWidth, mipHeight, filter);
-					if (thisMipImage.format() != Image::Format::RGBAF)
-						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
-					thisMipImage.changeColorSpace(m_impl->colorSpace);
+					mipImages[d] = createCustomMip(*foundCustomMip->second.image, mipWidth,
+						mipHeight, m_impl->colorSpace, filter);
 				}
 			}
 
@@ -1520,11 +1529,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					Image& thisMipImage = m_impl->images[mip][d][f];
 					if (customMip)
 					{
-						thisMipImage = foundCustomMip->second.image->resize(
-							mipWidth, mipHeight, filter);
-						if (thisMipImage.format() != Image::Format::RGBAF)
-							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
-						thisMipImage.changeColorSpace(m_impl->colorSpace);
+						thisMipImage = createCustomMip(*foundCustomMip->second.image, mipWidth,
+							mipHeight, m_impl->colorSpace, filter);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 9a33cdc636492717eeb37260528de34d1aac82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 42/47] fix: reject image sizes that FreeImage cannot hold
 rather than overrunning a smaller bitmap

---
 lib/src/Image.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 2f48650..24a68d7 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -995,8 +995,15 @@ bool Image::initialize(Format format, unsigned int width, unsigned int height,
 	if (type == FIT_UNKNOWN)
 		return false;
 
+	// FreeImage uses signed sizes and stores the size of each row in 32 bits.
+	const unsigned int maxSize = std::numeric_limits<int>::max();
+	if (width > maxSize || height > maxSize)
+		return false;
+
 	m_impl.reset(Impl::create(FreeImage_AllocateT(type, width, height, bpp, redMask, greenMask,
 		blueMask), colorSpace, format));
+	if (m_impl && static_cast<std::uint64_t>(width)*m_impl->bitsPerPixel/8 > maxSize)
+		reset();
 	return m_impl != nullptr;
 }
 
@@ -1360,7 +1367,8 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter) const
 {
 	Image image;
-	if (!m_impl || width == 0 || height == 0)
+	const unsigned int maxSize = std::numeric_limits<int>::max();
+	if (!m_impl || width == 0 || height == 0 || width > maxSize || height > maxSize)
 		return image;
 
 	if (width == m_impl->width && height == m_impl->height)
-- 
2.43.0


From 3c6a919d8e61c373c717e99fe061270189e27d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 43/47] fix: describe block-compressed DDS files by their
 linear size rather than a row pitch

---
 lib/src/SaveDds.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index 3c086f5..f3edc7b 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -550,6 +550,11 @@ static DdsDxt10Format getDdsFormat(Texture::Format format, Texture::Type type,
 	return DdsDxt10Format_UNKNOWN;
 }
 
+static bool isCompressed(const Texture& texture)
+{
+	return Texture::blockWidth(texture.format()) > 1;
+}
+
 static std::uint32_t computePitch(const Texture& texture)
 {
 	unsigned int blockWidth = Texture::blockWidth(texture.format());
@@ -557,6 +562,12 @@ static std::uint32_t computePitch(const Texture& texture)
 	return (texture.width() + blockWidth - 1)/blockWidth*blockSize;
 }
 
+static std::uint32_t computeLinearSize(const Texture& texture)
+{
+	unsigned int blockHeight = Texture::blockHeight(texture.format());
+	return computePitch(texture)*((texture.height() + blockHeight - 1)/blockHeight);
+}
+
 bool isValidForDds(Texture::Format format, Texture::Type type)
 {
 	return getDdsFormat(format, type, ColorSpace::Linear) != DdsDxt10Format_UNKNOWN;
@@ -575,12 +586,22 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	DdsHeader header;
 	std::memset(&header, 0, sizeof(header));
 	header.size = sizeof(DdsHeader);
-	header.flags = DdsFlags_Requred | DdsFlags_MipmapCount | DdsFlags_Pitch;
+	header.flags = DdsFlags_Requred | DdsFlags_MipmapCount;
 	if (texture.dimension() == Texture::Dimension::Dim3D)
 		header.flags |= DdsFlags_Depth;
 	header.height = texture.height();
 	header.width = texture.width();
-	header.pitchOrLinearSize = computePitch(texture);
+	// Compressed formats provide the full size of the top level rather than the pitch of a row.
+	if (isCompressed(texture))
+	{
+		header.flags |= DdsFlags_LinearSize;
+		header.pitchOrLinearSize = computeLinearSize(texture);
+	}
+	else
+	{
+		header.flags |= DdsFlags_Pitch;
+		header.pitchOrLinearSize = computePitch(texture);
+	}
 	header.depth = texture.dimension() == Texture::Dimension::Dim3D ? texture.depth() : 0;
 	header.mipMapCount = texture.mipLevelCount();
 
-- 
2.43.0


From 47ed9e89d7e00f8826880b395858ebbcc464fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 44/47] fix: load bilevel and white-is-zero grayscale images
 with the values they stand for

---
 lib/src/Image.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 24a68d7..96dcae5 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -717,10 +717,17 @@ struct Image::Impl
 		if (!image)
 			return nullptr;
 
-		if (FreeImage_GetColorType(image) == FIC_PALETTE)
+		FREE_IMAGE_COLOR_TYPE colorType = FreeImage_GetColorType(image);
+		// Only 8-BPP grayscale with black as 0 may be used directly.
+		bool convertToGrayscale = FreeImage_GetImageType(image) == FIT_BITMAP &&
+			(colorType == FIC_MINISWHITE ||
+				(colorType == FIC_MINISBLACK && FreeImage_GetBPP(image) < 8));
+		if (colorType == FIC_PALETTE || convertToGrayscale)
 		{
 			FIBITMAP* newImage;
-			if (FreeImage_IsTransparent(image))
+			if (convertToGrayscale)
+				newImage = FreeImage_ConvertToGreyscale(image);
+			else if (FreeImage_IsTransparent(image))
 				newImage = FreeImage_ConvertTo32Bits(image);
 			else
 				newImage = FreeImage_ConvertTo24Bits(image);
-- 
2.43.0


From 6de51689931db83d313a4fe880b49775297f0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:31 +0000
Subject: [PATCH 45/47] fix: allow images to be saved from multiple threads

FreeImage_GetFIFFromFilename() uses strtok(), so saving images concurrently could spuriously fail for formats
with multiple extensions.
---
 lib/src/Image.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 96dcae5..647cfab 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -26,6 +26,7 @@
 #include <fstream>
 #include <istream>
 #include <limits>
+#include <mutex>
 #include <ostream>
 #include <sstream>
 
@@ -54,6 +55,14 @@ void freeImageInitialize()
 	static FreeImageInitialize initializer;
 }
 
+FREE_IMAGE_FORMAT getFormatFromFileName(const char* fileName)
+{
+	// FreeImage uses strtok() to match the extension, so it can't be called from multiple threads.
+	static std::mutex mutex;
+	std::lock_guard<std::mutex> lock(mutex);
+	return FreeImage_GetFIFFromFilename(fileName);
+}
+
 Image::Format getFormat(FIBITMAP* image)
 {
 	switch (FreeImage_GetImageType(image))
@@ -936,7 +945,7 @@ bool Image::save(const char* fileName)
 	if (!m_impl)
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
+	FREE_IMAGE_FORMAT format = getFormatFromFileName(fileName);
 	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
@@ -957,7 +966,7 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (!m_impl)
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
+	FREE_IMAGE_FORMAT format = getFormatFromFileName(fileName);
 	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
-- 
2.43.0


From 6b78934c4bcb5e2b0db5c6d579aa7464c537a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:27 +0000
Subject: [PATCH 46/47] fix: don't write uninitialized memory when saving
 images

FreeImage's memory streams don't initialize what's skipped when seeking past the end, such as the padding
TIFF images require.
---
 lib/src/Image.cpp | 99 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 86 insertions(+), 13 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 647cfab..3f6bf40 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -23,12 +23,15 @@
 #include <cassert>
 #include <cmath>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <istream>
 #include <limits>
 #include <mutex>
+#include <new>
 #include <ostream>
 #include <sstream>
+#include <stdexcept>
 
 namespace cuttlefish
 {
@@ -296,6 +299,85 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
+struct MemoryStream
+{
+	std::vector<std::uint8_t> data;
+	std::size_t offset = 0;
+};
+
+unsigned int readMemory(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
+{
+	auto stream = reinterpret_cast<MemoryStream*>(handle);
+	if (size == 0 || stream->offset >= stream->data.size())
+		return 0;
+
+	std::size_t readCount = std::min<std::size_t>((stream->data.size() - stream->offset)/size, count);
+	std::memcpy(buffer, stream->data.data() + stream->offset, readCount*size);
+	stream->offset += readCount*size;
+	return static_cast<unsigned int>(readCount);
+}
+
+unsigned int writeMemory(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
+{
+	auto stream = reinterpret_cast<MemoryStream*>(handle);
+	std::size_t dataSize = static_cast<std::size_t>(size)*count;
+	if (dataSize == 0)
+		return 0;
+
+	// When writing past the end, what was skipped is filled with zeros.
+	if (stream->offset + dataSize > stream->data.size())
+	{
+		try
+		{
+			stream->data.resize(stream->offset + dataSize);
+		}
+		catch (const std::bad_alloc&)
+		{
+			return 0;
+		}
+		catch (const std::length_error&)
+		{
+			return 0;
+		}
+	}
+
+	std::memcpy(stream->data.data() + stream->offset, buffer, dataSize);
+	stream->offset += dataSize;
+	return count;
+}
+
+int seekMemory(fi_handle handle, long offset, int origin)
+{
+	auto stream = reinterpret_cast<MemoryStream*>(handle);
+	std::int64_t newOffset = offset;
+	switch (origin)
+	{
+		case SEEK_SET:
+			break;
+		case SEEK_CUR:
+			newOffset += static_cast<std::int64_t>(stream->offset);
+			break;
+		case SEEK_END:
+			newOffset += static_cast<std::int64_t>(stream->data.size());
+			break;
+		default:
+			return -1;
+	}
+
+	if (newOffset < 0)
+		return -1;
+
+	stream->offset = static_cast<std::size_t>(newOffset);
+	return 0;
+}
+
+long tellMemory(fi_handle handle)
+{
+	return static_cast<long>(reinterpret_cast<MemoryStream*>(handle)->offset);
+}
+
+FreeImageIO memoryIO{&readMemory, &writeMemory, &seekMemory, &tellMemory};
+
 double toDoubleNorm(std::uint8_t value)
 {
 	return value/255.0;
@@ -972,21 +1054,12 @@ bool Image::save(std::ostream& stream, const char* fileName)
 
 	// Some file formats need to read and seek past the end of what was written, which not all streams
 	// support, so save to memory first.
-	FIMEMORY* memoryStream = FreeImage_OpenMemory();
-	if (!memoryStream)
+	MemoryStream memoryStream;
+	if (!FreeImage_SaveToHandle(format, m_impl->image, &memoryIO, &memoryStream))
 		return false;
 
-	BYTE* data;
-	DWORD size;
-	bool success = FreeImage_SaveToMemory(format, m_impl->image, memoryStream) &&
-		FreeImage_AcquireMemory(memoryStream, &data, &size);
-	if (success)
-	{
-		stream.write(reinterpret_cast<const char*>(data), size);
-		success = stream.good();
-	}
-	FreeImage_CloseMemory(memoryStream);
-	return success;
+	stream.write(reinterpret_cast<const char*>(memoryStream.data.data()), memoryStream.data.size());
+	return stream.good();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From 825e89e7efbc6dc213b62844ce076a5f9bb15ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 47/47] fix: allow XPM images to be saved from multiple threads

---
 lib/src/Image.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 3f6bf40..0ec3130 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -58,11 +58,16 @@ void freeImageInitialize()
 	static FreeImageInitialize initializer;
 }
 
+std::mutex& freeImageMutex()
+{
+	static std::mutex mutex;
+	return mutex;
+}
+
 FREE_IMAGE_FORMAT getFormatFromFileName(const char* fileName)
 {
 	// FreeImage uses strtok() to match the extension, so it can't be called from multiple threads.
-	static std::mutex mutex;
-	std::lock_guard<std::mutex> lock(mutex);
+	std::lock_guard<std::mutex> lock(freeImageMutex());
 	return FreeImage_GetFIFFromFilename(fileName);
 }
 
@@ -1054,10 +1059,18 @@ bool Image::save(std::ostream& stream, const char* fileName)
 
 	// Some file formats need to read and seek past the end of what was written, which not all streams
 	// support, so save to memory first.
+	// The XPM encoder uses static buffers, so it can't be called from multiple threads.
+	std::unique_lock<std::mutex> lock(freeImageMutex(), std::defer_lock);
+	if (format == FIF_XPM)
+		lock.lock();
+
 	MemoryStream memoryStream;
 	if (!FreeImage_SaveToHandle(format, m_impl->image, &memoryIO, &memoryStream))
 		return false;
 
+	if (lock.owns_lock())
+		lock.unlock();
+
 	stream.write(reinterpret_cast<const char*>(memoryStream.data.data()), memoryStream.data.size());
 	return stream.good();
 }
-- 
2.43.0

