#set locgroup vx_loc::group_loc, vx_ax_len::group_len,
#set singular 1
#set filter filter.rs
#set iter 0
#crate singular jsonpath_rfc9535_singular_selector/src
#include loc_body.vx
