From 634b55cd4a2d6017fef7c7ae716f6b786fe3788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 01/34] fix: Texture::hasAlpha() reports alpha for A4R4G4B4

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..566e43d 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -470,6 +470,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From 9104bbb2f0fdc5e3bc8bb603ca3b8c08165db70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 02/34] fix: clamp NaN so it is never converted to an integer

---
 lib/src/Shared.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Shared.h b/lib/src/Shared.h
index 6d0a7f7..6eb5104 100644
--- a/lib/src/Shared.h
+++ b/lib/src/Shared.h
@@ -29,7 +29,8 @@ namespace cuttlefish
 
 inline float clamp(float v, float minVal, float maxVal)
 {
-	if (v < minVal)
+	// Negated so NaN is also clamped, since it can't be converted to an integer.
+	if (!(v >= minVal))
 		return minVal;
 	else if (v > maxVal)
 		return maxVal;
-- 
2.43.0


From 59cc7d7a263a0bd6bbbeec88c8a9fee2a1e51d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 03/34] fix: clamp 32-bit integer channels to limits the
 integer can represent

---
 lib/src/Shared.h            | 10 ++++++++++
 lib/src/StandardConverter.h |  7 ++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/src/Shared.h b/lib/src/Shared.h
index 6eb5104..6b8cf51 100644
--- a/lib/src/Shared.h
+++ b/lib/src/Shared.h
@@ -37,6 +37,16 @@ inline float clamp(float v, float minVal, float maxVal)
 	return v;
 }
 
+inline double clamp(double v, double minVal, double maxVal)
+{
+	// Negated so NaN is also clamped, since it can't be converted to an integer.
+	if (!(v >= minVal))
+		return minVal;
+	else if (v > maxVal)
+		return maxVal;
+	return v;
+}
+
 template <typename T>
 bool write(std::ostream& stream, const T& value)
 {
diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..2f423d8 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -163,8 +163,9 @@ public:
 
 	void process(unsigned int x, unsigned int, ThreadData*) override
 	{
-		const float minVal = static_cast<float>(std::numeric_limits<T>::min());
-		const float maxVal = static_cast<float>(std::numeric_limits<T>::max());
+		// Use doubles since the limits of 32-bit integers can't be represented as floats.
+		const double minVal = static_cast<double>(std::numeric_limits<T>::min());
+		const double maxVal = static_cast<double>(std::numeric_limits<T>::max());
 
 		T* curData = reinterpret_cast<T*>(data().data()) + x*batchSize*C;
 		unsigned int row = x*batchSize/image().width();
@@ -184,7 +185,7 @@ public:
 			for (unsigned int c = 0; c < C; ++c)
 			{
 				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+					std::round(clamp(static_cast<double>(scanline[col*4 + c]), minVal, maxVal)));
 			}
 		}
 	}
-- 
2.43.0


From b450afc04acc2488b5a4d4bedf18489d965c8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 04/34] fix: assigning a CustomMipImage copies its replacement
 mode

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 566e43d..ce51781 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -284,6 +284,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
@@ -302,6 +303,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 	if (this == &other)
 		return *this;
 
+	replacement = other.replacement;
 	if (other.image == &other.imageStorage)
 	{
 		image = &imageStorage;
-- 
2.43.0


From ea771c1f52a6593d336fc489419e600f533a0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 05/34] fix: size the levels of a 3D texture by the depth of
 each level

---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index ce51781..81f26fc 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1155,9 +1155,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(Texture::depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From 34ffbbabc5e24b80321013cb9451f7607af05ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 06/34] fix: a custom mip used once never feeds the next face
 or layer

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 81f26fc..81a85cb 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1459,11 +1459,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From 18b96a207969d507495c422af9e9e144190d20ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 07/34] fix: custom mips are changed to the texture's color
 space

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 81a85cb..951c389 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1430,6 +1430,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1506,6 +1507,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 656a4f5fef4833e4c7a417be462f68f5fe340cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 08/34] fix: reject inconsistent custom 3D mips before changing
 the texture

---
 lib/src/Texture.cpp | 51 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 951c389..b55c29a 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1344,6 +1344,33 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
+
+	if (m_impl->dimension == Dimension::Dim3D)
+	{
+		// Check the custom mips before changing anything. If one depth is provided, all must be,
+		// and have consistent replacement between them.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			for (unsigned int d = 1; d < mipDepth; ++d)
+			{
+				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
+				if ((foundCustomMip == customMipImages.end()) !=
+					(firstCustomMip == customMipImages.end()))
+				{
+					return false;
+				}
+
+				if (foundCustomMip != customMipImages.end() &&
+					foundCustomMip->second.replacement != firstCustomMip->second.replacement)
+				{
+					return false;
+				}
+			}
+		}
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
@@ -1358,26 +1385,12 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			unsigned int mipHeight = height(mip);
 			unsigned int mipDepth = depth(mip);
 
-			// Check for custom mips. If one depth is provided, all must be, and have consistent
-			// replacement between them.
-			bool customMips = false;
+			// Custom mips were already checked to be provided for all depths or none.
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			bool customMips = firstCustomMip != customMipImages.end();
 			MipReplacement replacement = MipReplacement::Once;
-			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
-				if (foundCustomMip == customMipImages.end())
-				{
-					if (customMips)
-						return false;
-				}
-				else if (d == 0)
-				{
-					customMips = true;
-					replacement = foundCustomMip->second.replacement;
-				}
-				else if (!customMips || replacement != foundCustomMip->second.replacement)
-					return false;
-			}
+			if (customMips)
+				replacement = firstCustomMip->second.replacement;
 
 			// Generated mips, either when no replacement is used or to resume previous state when
 			// replacement is set to once.
-- 
2.43.0


From 9cea413df7d0b3e836dc953c03f50805d8f7c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 09/34] fix: generating mipmaps discards data converted for the
 previous shape

---
 lib/src/Texture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index b55c29a..78c1b21 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1371,6 +1371,10 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 	}
 
+	// The shape changes, so any previously converted data no longer matches it.
+	m_impl->format = Format::Unknown;
+	m_impl->textures.clear();
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
-- 
2.43.0


From 974150b91dc493594551e48fdc20bb5e896cfd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 10/34] fix: saving a texture to a file reports errors when
 flushing the file

---
 lib/src/Texture.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 78c1b21..2593e86 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1669,7 +1669,13 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	SaveResult result = save(stream, fileType);
+	// Data may be buffered, so it's only known to be written once the file was closed successfully.
+	stream.close();
+	if (result == SaveResult::Success && !stream)
+		return SaveResult::WriteError;
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From b59cbcbe07528e460470a69768992286fb4bd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 11/34] fix: set the complex flag in the DDS header of every
 cube map

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From d1762bbcc9c05bb78dacd98c59469bd3bea718a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 12/34] fix: describe the byte order of B8G8R8A8 and A8B8G8R8
 correctly in KTX files

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..1b4f227 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -378,7 +378,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -405,7 +405,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From 0097fdf5117cf740e4dbc6916d851439aa2d57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 13/34] fix: use the signed GL type for signed R8G8 KTX files

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index 1b4f227..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From 7e0a90a7ea1760df5cb4660ace770aa0c8b76164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 14/34] fix: use the integer GL formats for integer textures in
 KTX files

---
 lib/src/SaveKtx.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..d3ef2ea 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -288,10 +288,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
+					info.format = GL_RED_INTEGER;
 					info.internalFormat = GL_R8UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
+					info.format = GL_RED_INTEGER;
 					info.internalFormat = GL_R8I;
 					return true;
 				default:
@@ -313,10 +315,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
+					info.format = GL_RG_INTEGER;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
+					info.format = GL_RG_INTEGER;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
@@ -340,10 +344,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
+					info.format = GL_RGB_INTEGER;
 					info.internalFormat = GL_RGB8UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
+					info.format = GL_RGB_INTEGER;
 					info.internalFormat = GL_RGB8I;
 					return true;
 				default:
@@ -485,10 +491,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
+					info.format = GL_RED_INTEGER;
 					info.internalFormat = GL_R16UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
+					info.format = GL_RED_INTEGER;
 					info.internalFormat = GL_R16I;
 					return true;
 				case Texture::Type::Float:
@@ -514,10 +522,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
+					info.format = GL_RG_INTEGER;
 					info.internalFormat = GL_RG16UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
+					info.format = GL_RG_INTEGER;
 					info.internalFormat = GL_RG16I;
 					return true;
 				case Texture::Type::Float:
@@ -542,10 +552,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
+					info.format = GL_RGB_INTEGER;
 					info.internalFormat = GL_RGB16UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
+					info.format = GL_RGB_INTEGER;
 					info.internalFormat = GL_RGB16I;
 					return true;
 				case Texture::Type::Float:
@@ -570,10 +582,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
+					info.format = GL_RGBA_INTEGER;
 					info.internalFormat = GL_RGBA16UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
+					info.format = GL_RGBA_INTEGER;
 					info.internalFormat = GL_RGBA16I;
 					return true;
 				case Texture::Type::Float:
@@ -591,10 +605,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 			{
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
+					info.format = GL_RED_INTEGER;
 					info.internalFormat = GL_R32UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
+					info.format = GL_RED_INTEGER;
 					info.internalFormat = GL_R32I;
 					return true;
 				case Texture::Type::Float:
@@ -612,10 +628,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 			{
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
+					info.format = GL_RG_INTEGER;
 					info.internalFormat = GL_RG32UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
+					info.format = GL_RG_INTEGER;
 					info.internalFormat = GL_RG32I;
 					return true;
 				case Texture::Type::Float:
@@ -632,10 +650,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 			{
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
+					info.format = GL_RGB_INTEGER;
 					info.internalFormat = GL_RGB32UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
+					info.format = GL_RGB_INTEGER;
 					info.internalFormat = GL_RGB32I;
 					return true;
 				case Texture::Type::Float:
@@ -652,10 +672,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 			{
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
+					info.format = GL_RGBA_INTEGER;
 					info.internalFormat = GL_RGBA32UI;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
+					info.format = GL_RGBA_INTEGER;
 					info.internalFormat = GL_RGBA32I;
 					return true;
 				case Texture::Type::Float:
-- 
2.43.0


From 50f768a2670cd2130f6be1cd29762ba8e8af4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 15/34] fix: report the blue mask of an image rather than the
 green mask

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..753f89f 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -743,7 +743,7 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-- 
2.43.0


From c9a2a2482e7fd29217ca68d9784016ffde052a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 16/34] fix: keep the linear-space grayscale value when setting
 a pixel of an sRGB image

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 753f89f..f24904d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From 71618bf0cf38bfa13c7d74305a419699fd16c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 17/34] fix: clamp pixels of integer images rather than
 wrapping them

---
 lib/src/Image.cpp | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f24904d..b2ac258 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -312,13 +312,17 @@ double toDoubleNorm6(unsigned int value)
 
 double clamp(double d)
 {
-	return std::max(std::min(d, 1.0), 0.0);
+	// The order of the parameters also clamps NaN, which can't be converted to an integer.
+	return std::min(std::max(0.0, d), 1.0);
 }
 
 template <typename T>
-T clamp(T v)
+T clampToInt(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	// Clamp before the conversion, which is undefined for values that are out of range. The order of
+	// the parameters also clamps NaN.
+	return static_cast<T>(std::min<double>(
+		std::max<double>(std::numeric_limits<T>::lowest(), d), std::numeric_limits<T>::max()));
 }
 
 template <typename T>
@@ -557,20 +561,20 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				clampToInt<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				clampToInt<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				clampToInt<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				clampToInt<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +677,20 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				clampToInt<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				clampToInt<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				clampToInt<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				clampToInt<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From 6aa4ec83d78d6ccc6f8a0400716993efe8e11c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 18/34] fix: return the number of items from the image stream
 callbacks

---
 lib/src/Image.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index b2ac258..321f17d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -209,8 +209,9 @@ bool isRGB16BPPFormat(Image::Format format)
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
-	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	// As with fread(), the result is the number of items rather than bytes.
+	return size == 0 ? 0 : static_cast<unsigned int>(stream->gcount()/size);
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
@@ -256,8 +257,9 @@ unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
 unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
+	stream->write(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	// As with fwrite(), the result is the number of items rather than bytes.
+	return count;
 }
 
 int seekOStream(fi_handle handle, long offset, int origin)
-- 
2.43.0


From bd2efec89322c44f4ded3955420764f10358a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 19/34] fix: report failed writes when saving an image to a
 stream

---
 lib/src/Image.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 321f17d..2b38cd8 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -259,7 +259,7 @@ unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, f
 	auto stream = reinterpret_cast<std::ostream*>(handle);
 	stream->write(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
 	// As with fwrite(), the result is the number of items rather than bytes.
-	return count;
+	return stream->good() ? count : 0;
 }
 
 int seekOStream(fi_handle handle, long offset, int origin)
@@ -948,7 +948,8 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
+	// Not all formats check that the data could be written.
+	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) && stream.flush();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From 28caad37d0c6eb40fd8e60c72e3adfaf2284a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 20/34] fix: allow using the stream when loading an image after
 reaching its end

---
 lib/src/Image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 2b38cd8..3511621 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -210,6 +210,9 @@ unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
 	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	// Reaching the end of the file doesn't prevent later use of the stream with FreeImage.
+	if (stream->eof())
+		stream->clear(stream->rdstate() & ~(std::ios_base::eofbit | std::ios_base::failbit));
 	// As with fread(), the result is the number of items rather than bytes.
 	return size == 0 ? 0 : static_cast<unsigned int>(stream->gcount()/size);
 }
-- 
2.43.0


From d39294d93639dbc7be56a7a14d513b2a64299877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 21/34] fix: convert resized RGB5 and RGB565 images back to the
 format they are reported as

---
 lib/src/Image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 3511621..86af0fa 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1381,6 +1381,14 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Double:
 		case Format::Complex:
 			break;
+		case Format::RGB5:
+		case Format::RGB565:
+			// NOTE: FreeImage resizes 16-BPP RGB formats to a 24-BPP image.
+			image.m_impl.reset(Impl::create(
+				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
+				Format::RGB8));
+			image = image.convert(m_impl->format);
+			break;
 		default:
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-- 
2.43.0


From 3326fc7680ae8b069d377585f57628b052a6d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 22/34] fix: load 1-bit and inverted grayscale images

---
 lib/src/Image.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 86af0fa..74fe34e 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -736,6 +736,16 @@ struct Image::Impl
 			if (!image)
 				return nullptr;
 		}
+		else if (FreeImage_GetImageType(image) == FIT_BITMAP &&
+			(FreeImage_GetBPP(image) < 8 || FreeImage_GetColorType(image) == FIC_MINISWHITE))
+		{
+			// Use 0 for black and 255 for white.
+			FIBITMAP* newImage = FreeImage_ConvertToGreyscale(image);
+			FreeImage_Unload(image);
+			image = newImage;
+			if (!image)
+				return nullptr;
+		}
 
 		if (format == Format::Invalid)
 			format = getFormat(image);
-- 
2.43.0


From 1ae0dab17ca24b12dbd43682d0a1d98901e77127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 23/34] fix: report the channel shifts of 24-BPP and 32-BPP
 images

---
 lib/src/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 74fe34e..d83c077 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -766,21 +766,21 @@ struct Image::Impl
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From 9f039f281f3d962befe3f4747f290f031cd22957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 24/34] fix: refuse image sizes that FreeImage cannot represent

---
 lib/src/Image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index d83c077..0ef1f03 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -987,6 +987,11 @@ bool Image::initialize(Format format, unsigned int width, unsigned int height,
 	if (type == FIT_UNKNOWN)
 		return false;
 
+	// FreeImage uses signed integers for the size, taking the absolute value.
+	constexpr unsigned int maxSize = std::numeric_limits<int>::max();
+	if (width > maxSize || height > maxSize)
+		return false;
+
 	m_impl.reset(Impl::create(FreeImage_AllocateT(type, width, height, bpp, redMask, greenMask,
 		blueMask), colorSpace, format));
 	return m_impl != nullptr;
-- 
2.43.0


From 396aedcafbab9b950d8893531329fc7701ce9889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 25/34] fix: Keep the type given before the format on the
 command line.

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..5ef7126 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1318,6 +1318,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			typeSet = true;
 			if (strcasecmp(argv[i], "unorm") == 0)
 				type = Texture::Type::UNorm;
 			else if (strcasecmp(argv[i], "snorm") == 0)
-- 
2.43.0


From 52c85394020d30cbf8e9bf28c6d3b5f16ac4bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 26/34] fix: Report an unknown format after a known one was
 given.

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 5ef7126..02fe25a 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1281,6 +1281,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			format = Texture::Format::Unknown;
 			for (const auto& formatInfo : formatMap)
 			{
 				if (strcasecmp(formatInfo.second, argv[i]) == 0)
-- 
2.43.0


From f143cf92119a8b7d010df402fa16619faafc072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 27/34] fix: Reject negative, empty, and too large indices on
 the command line.

---
 tool/CommandLine.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 02fe25a..efb11f0 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -16,10 +16,12 @@
 
 #include "CommandLine.h"
 #include <cassert>
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -276,22 +278,31 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool strToIndex(std::size_t& index, const char* str)
 {
-	if (i >= argc - 1)
+	// strtoul() also accepts empty strings and negative values, which wrap.
+	if (*str < '0' || *str > '9')
 		return false;
 
 	char* endPtr;
-	const char* str = argv[i + 1];
+	errno = 0;
 	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	if (*endPtr != 0 || errno == ERANGE || value >= std::numeric_limits<unsigned int>::max())
 		return false;
 
-	++i;
 	index = value;
 	return true;
 }
 
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !strToIndex(index, argv[i + 1]))
+		return false;
+
+	++i;
+	return true;
+}
+
 bool strToCubeFace(Texture::CubeFace& face, const char* str)
 {
 	if (strcasecmp(str, "+x") == 0)
@@ -567,10 +578,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level;
+		if (!strToIndex(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -579,13 +588,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (strToIndex(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
-- 
2.43.0


From b9dcfed1a4ba18ac5217cdec103611d70fe91d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 28/34] fix: Refuse to add images to those of an image list.

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index efb11f0..7bb1ef6 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1013,6 +1013,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			if (!readImageList(images, argv[++i]))
 			{
 				success = false;
-- 
2.43.0


From b01544aeb27de3db894d720248a556934d059439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 29/34] fix: Reject resize sizes that aren't positive integers.

---
 tool/CommandLine.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 7bb1ef6..fdf8643 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -474,9 +474,10 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 		size = CommandLine::MaxNearestPO2;
 	else
 	{
-		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		// Negative values would be taken for the special sizes.
+		std::size_t value;
+		if (!strToIndex(value, argv[i]) || value == 0 ||
+			value > static_cast<std::size_t>(std::numeric_limits<int>::max()))
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
-- 
2.43.0


From d4d99de421b0830565541586ac4ea3f1ea9af967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 30/34] fix: Reject negative and too large job counts.

---
 tool/CommandLine.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index fdf8643..f5429aa 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -830,13 +830,9 @@ bool CommandLine::parse(int argc, const char** argv)
 			jobs = Texture::allCores;
 			if (i + 1 < argc)
 			{
-				char* endPtr;
-				unsigned long jobsl = std::strtol(argv[i + 1], &endPtr, 10);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
-				{
-					jobs = static_cast<unsigned int>(jobsl);
-					++i;
-				}
+				std::size_t jobCount;
+				if (readIndex(jobCount, i, argc, argv))
+					jobs = static_cast<unsigned int>(jobCount);
 			}
 		}
 		else if (matches(argv[i], "-q", "--quiet"))
-- 
2.43.0


From bb45ad8d9cf54ef625b8e043da99893adb770b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 31/34] fix: Reject custom mips outside of the texture.

---
 tool/CommandLine.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index f5429aa..fe09cf6 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -756,6 +756,8 @@ bool validate(CommandLine& args)
 	}
 
 	auto depth = static_cast<unsigned int>(args.images.size());
+	if (args.dimension == Texture::Dimension::Cube)
+		depth /= 6;
 	std::vector<unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
@@ -765,6 +767,14 @@ bool validate(CommandLine& args)
 			return false;
 		}
 
+		// Sizes are limited to 32 bits, so there can't be more levels.
+		if (customMip.first.mipLevel >= 32)
+		{
+			std::cerr << "error: level " << customMip.first.mipLevel <<
+				" for custom mip out of range" << std::endl;
+			return false;
+		}
+
 		unsigned int thisDepth = depth;
 		if (args.dimension == Texture::Dimension::Dim3D)
 		{
-- 
2.43.0


From 90d5a67d2502970c00ba6229c110856c07f8a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 32/34] fix: Report a failure to generate mipmaps from the
 tool.

---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..33abe4a 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -370,7 +370,11 @@ bool saveTexture(
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From 66e7ae0101575771ea306032cc825f7e90c0e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 33/34] fix: Reject empty angles and normal map heights on the
 command line.

---
 tool/CommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index fe09cf6..535fbb1 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1133,7 +1133,7 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			char* endPtr;
 			long angle = std::strtol(argv[++i], &endPtr, 10);
-			if (endPtr != argv[i] + std::strlen(argv[i]) || angle % 90 != 0)
+			if (endPtr == argv[i] || *endPtr != 0 || angle % 90 != 0)
 			{
 				std::cerr << "error: rotate angle must be a multiple of 90 degrees" << std::endl;
 				success = false;
@@ -1200,7 +1200,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			{
 				char* endPtr;
 				double h = std::strtod(argv[i + 1], &endPtr);
-				if (endPtr == argv[i + 1] + std::strlen(argv[i + 1]))
+				if (endPtr != argv[i + 1] && *endPtr == 0)
 				{
 					normalHeight = h;
 					++i;
-- 
2.43.0


From e6e92bd50c95e85633688d85c5c14985e6fb6daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 34/34] fix: Keep the rotated size for custom mips of normal
 maps.

---
 tool/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 33abe4a..e04ba17 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -204,6 +204,14 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "rotating image '" << path << "'" << std::endl;
 		image = image.rotate(args.rotateAngle);
+
+		// Quarter turns swap the size the image ends up with.
+		if (args.rotateAngle != Image::RotateAngle::CW180 &&
+			args.rotateAngle != Image::RotateAngle::CCW180)
+		{
+			std::swap(normalWidth, normalHeight);
+			std::swap(thisWidth, thisHeight);
+		}
 	}
 
 	if (args.grayscale)
-- 
2.43.0

