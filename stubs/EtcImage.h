// Declarations only: stands in for the etc2comp header (an absent submodule) so that the selection
// of encoders can be analysed with codecs enabled. Nothing is ever linked against it.
#pragma once
namespace Etc
{
enum ErrorMetric {RGBA, RGBX, REC709, NUMERIC, NORMALXYZ};
class Image
{
public:
	enum class Format {UNKNOWN, ETC1, RGB8, SRGB8, RGBA8, SRGBA8, R11, SIGNED_R11, RG11, SIGNED_RG11, RGB8A1, SRGB8A1};
};
} // namespace Etc
