#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
#include <cuttlefish/Color.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <functional>
#include <string>
#include <utility>
#include <vector>
using namespace cuttlefish;
typedef Texture::Format F;
typedef Texture::Type Ty;
typedef Texture::Dimension D;
typedef Texture::CubeFace CF;
static int failures;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); ++failures; } } while (0)

typedef std::function<ColorRGBAd(unsigned int, unsigned int)> Pixel;
static Image makeImage(unsigned int w, unsigned int h, const Pixel& p, Image::Format f = Image::Format::RGBAF,
	ColorSpace cs = ColorSpace::Linear)
{
	Image image(f, w, h, cs);
	for (unsigned int y = 0; y < h; ++y)
		for (unsigned int x = 0; x < w; ++x)
			image.setPixel(x, y, p(x, y));
	return image;
}

// Sets every surface of every level; each surface has pixels depending on all its coordinates.
static void fill(Texture& t, float scale = 1.0f)
{
	for (unsigned int m = 0; m < t.mipLevelCount(); ++m)
		for (unsigned int d = 0; d < t.depth(m); ++d)
			for (unsigned int f = 0; f < t.faceCount(); ++f)
				t.setImage(makeImage(t.width(m), t.height(m), [&](unsigned int x, unsigned int y)
					{
						double v = ((x*7 + y*13 + m*31 + d*17 + f*43) % 256)/255.0*scale;
						double u = ((x*5 + y*3 + m*11 + d*71 + f*29 + 40) % 256)/255.0*scale;
						return ColorRGBAd{v, u, 1.0 - v, 1.0 - u};
					}), (CF)f, m, d);
}

static std::vector<std::uint8_t> bytes(const Texture& t, CF f = CF::PosX, unsigned int m = 0, unsigned int d = 0)
{
	auto p = (const std::uint8_t*)t.data(f, m, d);
	return p ? std::vector<std::uint8_t>(p, p + t.dataSize(f, m, d)) : std::vector<std::uint8_t>();
}

static std::vector<std::uint8_t> saved(Texture& t, Texture::FileType ft)
{
	std::vector<std::uint8_t> v;
	if (t.save(v, ft) != Texture::SaveResult::Success)
		v.clear();
	return v;
}

static std::uint32_t u32(const std::vector<std::uint8_t>& v, std::size_t at)
{
	std::uint32_t r = 0;
	if (at + 4 <= v.size())
		std::memcpy(&r, &v[at], 4);
	return r;
}
