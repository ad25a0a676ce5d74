// ---- locations as normalized paths ----
pub type SPath = Seq<char>;
pub open spec fn p_root() -> SPath { "$"@ }
pub open spec fn p_idx(p: SPath, i: int) -> SPath { p + step_idx(i) }
pub open spec fn p_key(p: SPath, k: Seq<char>) -> SPath { p + step_key(k) }
