#set locgroup vx_none::ax_none,
#crate unescape_singular_selector jsonpath_rfc9535_singular_selector/src
#include unescape.vx
