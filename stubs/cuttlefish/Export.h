#pragma once
#define CUTTLEFISH_EXPORT
