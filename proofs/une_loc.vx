#set locgroup vx_none::ax_none,
#crate unescape_locations jsonpath_rfc9535_locations/src
#include unescape.vx
