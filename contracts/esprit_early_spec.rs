// ---------------------------------------------------------------- automatic semicolon insertion (11.9)
// the statement that ends before token k ends with s: a semicolon of the source, or one
// inserted because the source ends, a "}" follows, or a new line starts
spec fn semi_req(h: Hist, k: int, s: Semi) -> bool {
    match s {
        Semi::Explicit(_) => tv(h, k - 1) is Semi,
        Semi::Inserted => !(tv(h, k) is Semi) && (tv(h, k) is RBrace || tv(h, k) is EOF || tk(h, k).newline),
    }
}
// after do .. while (..) it may be left out anywhere
spec fn semi_any(h: Hist, k: int, s: Semi) -> bool {
    match s {
        Semi::Explicit(_) => tv(h, k - 1) is Semi,
        Semi::Inserted => !(tv(h, k) is Semi),
    }
}
spec fn ends_line(h: Hist, k: int) -> bool { tk(h, k).newline || tv(h, k) is Semi || tv(h, k) is RBrace || tv(h, k) is EOF }
// a left-hand side cannot go on with token k ..
spec fn stop_l(h: Hist, k: int) -> bool { !(tv(h, k) is Dot) && !(tv(h, k) is LBrack) && !(tv(h, k) is LParen) }
// .. nor a unary expression, which may have ended with "++" or "--"
spec fn stop_u(h: Hist, k: int) -> bool {
    tv(h, k - 1) is Inc || tv(h, k - 1) is Dec || stop_l(h, k) && ((tv(h, k) is Inc || tv(h, k) is Dec) ==> tk(h, k).newline)
}
// .. nor operators and operands
spec fn stop_i(h: Hist, k: int, n: bool) -> bool { stop_u(h, k) && sp_binop(tv(h, k), n) is None && sp_logop(tv(h, k)) is None }
// .. nor an assignment expression
spec fn stop_a(h: Hist, k: int, n: bool) -> bool { stop_i(h, k, n) && !(tv(h, k) is Question) && !(tv(h, k) is Assign) && sp_assop(tv(h, k)) is None }
spec fn stop_e(h: Hist, k: int, n: bool) -> bool { stop_a(h, k, n) && !(tv(h, k) is Comma) }
spec fn dtor_stop(h: Hist, k: int, d: Dtor, n: bool) -> bool {
    match d {
        Dtor::Simple(_, _, None) => !(tv(h, k) is Assign),
        _ => stop_a(h, k, n),
    }
}
// a semicolon was missing, and could not be inserted
spec fn asi_failed(e: Error) -> bool {
    e matches Error::FailedASI(t) ==> !t.newline && !(t.value is Semi) && !(t.value is RBrace) && !(t.value is EOF)
}
