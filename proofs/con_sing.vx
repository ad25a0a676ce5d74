#set locgroup vx_none::ax_none,
#crate conslist_singular jsonpath_rfc9535_singular_selector/src
#include conslist.vx
