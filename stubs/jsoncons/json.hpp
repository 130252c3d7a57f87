// jsoncons is not installed here; cbor.hpp's reader does not use it.
#pragma once
