// ---- locations as sequences of steps ----
pub ghost enum SPE { Idx(int), Key(Seq<char>) }
pub type SPath = Seq<SPE>;
pub open spec fn p_root() -> SPath { Seq::empty() }
pub open spec fn p_idx(p: SPath, i: int) -> SPath { p.push(SPE::Idx(i)) }
pub open spec fn p_key(p: SPath, k: Seq<char>) -> SPath { p.push(SPE::Key(k)) }
