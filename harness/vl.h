// The library under test, taken from the repository's working tree (-I<repo>/Source).
#pragma once
#include <compare>
#include <concepts>
#include "Basic.h"
#include "Exception.h"
#include "Primitives/Pointer.h"
#include "Primitives/Nullable.h"
#include "Primitives/Tuple.h"
#include "Primitives/Variant.h"
#include "Primitives/Function.h"
#include "Primitives/Event.h"
#include "Strings/String.h"
#include "Collections/Pair.h"
#include "Collections/List.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
