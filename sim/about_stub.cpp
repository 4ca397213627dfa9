#include "core/bin/about.hpp"
namespace Maike::Self {
char const* BuildId = "sim"; char const* BuildStartTime = "sim"; char const* BuildHost = "sim"; char const* VcsRevisionId = "sim";
char const* VcsTag = "sim"; char const* Copyright = "sim"; char const* DescriptionShort = "sim"; char const* LegalBrief = "sim";
}
