#fn iter.rs QueryIter::new ${assumed}
@ret r
@spec
    requires wt_query(query), env_ok(*env),
    ensures r.rest() == query_nodes(query, *root, *root),
#end
