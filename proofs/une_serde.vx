#set locgroup vx_none::ax_none,
#crate unescape_serde jsonpath_rfc9535_serde/src
#include unescape.vx
