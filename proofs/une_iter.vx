#set locgroup vx_none::ax_none,
#crate unescape_iter jsonpath_rfc9535_iter/src
#include unescape.vx
