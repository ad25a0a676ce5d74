#props P17
#fn ${queryfile} Query::is_empty
@ret r
@spec
    ensures r == (forall|i: int| 0 <= i < self.segments@.len() ==> (#[trigger] self.segments@[i]) is Eoi),
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == (*$0 is Eoi)
#end
#fn ${queryfile} Query::is_singular
@ret r
@spec
    ensures r == sing_q(*self),
@closure 0
|$0: &Segment| -> (o: bool)
    ensures o == sing_seg(*$0)
@closure 1
|$0: &Selector| -> (o: bool)
    ensures o == (*$0 is Name || *$0 is Index)
#end
