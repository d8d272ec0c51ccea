"""Constructs that can end the process instead of returning an error."""
PANIC_NAMES = {
    "unwrap", "expect", "unwrap_err", "expect_err",
}
PANIC_FNS = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic", "core::option::unwrap_failed",
             "core::option::expect_failed", "core::result::unwrap_failed", "std::process::exit",
             "std::process::abort", "core::intrinsics::abort")
UNCHECKED = ("unwrap_unchecked", "unsafe_unwrap", "unsafe_unwrap_err", "get_unchecked", "get_unchecked_mut",
             "unreachable_unchecked", "from_utf8_unchecked", "unchecked_unwrap")
INDEXING = ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")


def panics(c):
    """The name of the panicking construct a callee record is, or None."""
    d = c["def"]
    if c["name"] in PANIC_NAMES and (d.startswith("core::option::Option") or d.startswith("core::result::Result")):
        return c["name"]
    if any(d.startswith(p) for p in PANIC_FNS):
        return c["name"]
    if d in INDEXING:
        return "indexing"
    if c["name"] in ("remove", "swap_remove", "insert", "split_at", "split_at_mut", "drain", "split_off", "copy_from_slice",
                     "clone_from_slice", "swap") and (d.startswith("alloc::vec::Vec") or d.startswith("core::slice::")):
        return c["name"]
    return None


def unchecked(c):
    return c["name"] if c["name"] in UNCHECKED or "unsafe_unwrap" in c["def"] else None
