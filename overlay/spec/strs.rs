// ---- String: conversions ----
pub open spec fn str_into<S: Into<String>>(s: S, t: String) -> bool {
    <S as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> t == <S as vstd::std_specs::convert::IntoSpec<String>>::into_spec(s)
}
pub open spec fn opt_into<S: Into<String>>(s: Option<S>, t: Option<String>) -> bool {
    match s { None => t is None, Some(x) => t matches Some(y) && str_into(x, y) }
}
/// t is s as a String, without the line feeds at its end
pub open spec fn code_into<S: Into<String>>(s: S, t: String) -> bool {
    <S as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> sb(t@) == trim_end_b(sb(<S as vstd::std_specs::convert::IntoSpec<String>>::into_spec(s)@), 10u8)
}
/// std: `String: Into<String>` is the identity
#[verifier::external_body]
pub proof fn axiom_into_string()
    ensures <String as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec(),
        forall|s: String| #[trigger] <String as vstd::std_specs::convert::IntoSpec<String>>::into_spec(s) == s,
{}
