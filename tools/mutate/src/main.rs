//! Mutation schemata: rewrites a Rust file so that every mutant is compiled in and selected at run time.
//! mutate IN OUT FIRST_ID [excluded ids...]   prints "id<TAB>file<TAB>function<TAB>kind<TAB>original" per mutant
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: usize,
    skip: HashSet<usize>,
    file: String,
    func: Vec<String>,
    list: Vec<String>,
    noint: usize,
}
impl M {
    fn id(&mut self, kind: &str, orig: &dyn ToTokens) -> Option<usize> {
        let i = self.next;
        self.next += 1;
        if self.skip.contains(&i) {
            return None;
        }
        let mut o = orig.to_token_stream().to_string().replace('\n', " ");
        if let Some(k) = o.find("crate :: mt :: on") {
            let _ = k;
            o = o.replace("crate :: mt :: on", "MT");
        }
        o.truncate(160);
        self.list.push(format!("{}\t{}\t{}\t{}\t{}", i, self.file, self.func.join("::"), kind, o));
        Some(i)
    }
}
fn test_attr(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.to_token_stream().to_string().contains("test"))
}
impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if !test_attr(&m.attrs) {
            visit_mut::visit_item_mod_mut(self, m);
        }
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if test_attr(&f.attrs) {
            return;
        }
        self.func.push(f.sig.ident.to_string());
        visit_mut::visit_item_fn_mut(self, f);
        self.func.pop();
    }
    fn visit_item_impl_mut(&mut self, f: &mut ItemImpl) {
        let t = f.trait_.as_ref().map(|t| t.1.to_token_stream().to_string() + " for ").unwrap_or_default();
        self.func.push((t + &f.self_ty.to_token_stream().to_string()).chars().filter(|c| *c != ' ').collect());
        visit_mut::visit_item_impl_mut(self, f);
        self.func.pop();
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.func.push(f.sig.ident.to_string());
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.func.pop();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            let del = match s {
                Stmt::Expr(e, Some(_)) => !matches!(e, Expr::Let(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)),
                Stmt::Macro(m) => m.semi_token.is_some() && m.mac.path.is_ident("assert"),
                _ => false,
            };
            let orig = s.clone();
            self.visit_stmt_mut(s);
            if del {
                if let Some(i) = self.id("delete", &orig) {
                    let st = s.clone();
                    *s = parse_quote!(if !crate::mt::on(#i) { #st });
                }
            }
        }
    }
    fn visit_expr_repeat_mut(&mut self, e: &mut ExprRepeat) {
        self.visit_expr_mut(&mut e.expr);
    }
    fn visit_expr_range_mut(&mut self, e: &mut ExprRange) {
        visit_mut::visit_expr_range_mut(self, e);
        if let Some(end) = &e.end {
            let en = end.clone();
            if let Some(i) = self.id("range-end", &en) {
                e.end = Some(Box::new(parse_quote!((if crate::mt::on(#i) { (#en) - 1 } else { #en }))));
            }
        }
        if let Some(st) = &e.start {
            let sn = st.clone();
            if let Some(i) = self.id("range-start", &sn) {
                e.start = Some(Box::new(parse_quote!((if crate::mt::on(#i) { (#sn) + 1 } else { #sn }))));
            }
        }
    }
    fn visit_expr_assign_mut(&mut self, e: &mut ExprAssign) {
        self.visit_expr_mut(&mut e.right);
    }
    fn visit_expr_index_mut(&mut self, e: &mut ExprIndex) {
        self.visit_expr_mut(&mut e.index);
    }
    fn visit_expr_reference_mut(&mut self, e: &mut ExprReference) {
        if e.mutability.is_some() {
            return;
        }
        visit_mut::visit_expr_reference_mut(self, e)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        match e {
            Expr::Binary(b) => {
                let asg = matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_));
                if !asg {
                    self.visit_expr_mut(&mut b.left);
                }
                self.visit_expr_mut(&mut b.right);
                let ops: Vec<BinOp> = match b.op {
                    BinOp::Add(_) => vec![parse_quote!(-)],
                    BinOp::Sub(_) => vec![parse_quote!(+)],
                    BinOp::Mul(_) => vec![parse_quote!(+)],
                    BinOp::Div(_) => vec![parse_quote!(*)],
                    BinOp::Eq(_) => vec![parse_quote!(!=)],
                    BinOp::Ne(_) => vec![parse_quote!(==)],
                    BinOp::Lt(_) => vec![parse_quote!(<=), parse_quote!(>=)],
                    BinOp::Le(_) => vec![parse_quote!(<), parse_quote!(>)],
                    BinOp::Gt(_) => vec![parse_quote!(>=), parse_quote!(<=)],
                    BinOp::Ge(_) => vec![parse_quote!(>), parse_quote!(<)],
                    BinOp::And(_) => vec![parse_quote!(||)],
                    BinOp::Or(_) => vec![parse_quote!(&&)],
                    BinOp::BitAnd(_) => vec![parse_quote!(|)],
                    BinOp::Shr(_) => vec![parse_quote!(<<)],
                    BinOp::Shl(_) => vec![parse_quote!(>>)],
                    BinOp::AddAssign(_) => vec![parse_quote!(-=)],
                    BinOp::SubAssign(_) => vec![parse_quote!(+=)],
                    BinOp::MulAssign(_) => vec![parse_quote!(+=)],
                    BinOp::DivAssign(_) => vec![parse_quote!(*=)],
                    _ => vec![],
                };
                let mut cur: Expr = Expr::Binary(b.clone());
                let (l, r) = (b.left.clone(), b.right.clone());
                for o in ops {
                    if let Some(i) = self.id(&format!("op {}", o.to_token_stream()), &orig) {
                        cur = parse_quote!((if crate::mt::on(#i) { (#l) #o (#r) } else { #cur }));
                    }
                }
                if !asg && matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    for (k, x) in [("left only", &l), ("right only", &r)] {
                        if let Some(i) = self.id(k, &orig) {
                            cur = parse_quote!((if crate::mt::on(#i) { #x } else { #cur }));
                        }
                    }
                }
                *e = cur;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_) | UnOp::Not(_)) => {
                if let (UnOp::Neg(_), Expr::Lit(_)) = (&u.op, &*u.expr) {
                    return;
                }
                self.visit_expr_mut(&mut u.expr);
                let inner = u.expr.clone();
                let cur = Expr::Unary(u.clone());
                if let Some(i) = self.id("drop unary", &orig) {
                    *e = parse_quote!((if crate::mt::on(#i) { #inner } else { #cur }));
                }
            }
            Expr::If(x) => {
                let is_let = x.cond.to_token_stream().to_string().contains("let ");
                self.visit_block_mut(&mut x.then_branch);
                if let Some((_, b)) = &mut x.else_branch {
                    self.visit_expr_mut(b);
                }
                if !is_let {
                    self.visit_expr_mut(&mut x.cond);
                    let c = x.cond.clone();
                    let oc = match &orig {
                        Expr::If(o) => o.cond.clone(),
                        _ => unreachable!(),
                    };
                    let mut cur = c;
                    for v in [true, false] {
                        if let Some(i) = self.id(&format!("if {}", v), &oc) {
                            cur = parse_quote!((if crate::mt::on(#i) { #v } else { #cur }));
                        }
                    }
                    x.cond = cur;
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(n) if self.noint == 0 => {
                    let suffix = n.suffix().to_string();
                    if let Ok(v) = n.base10_parse::<u128>() {
                        if v > u64::MAX as u128 {
                            return;
                        }
                        let alt = LitInt::new(&format!("{}{}", v + 1, suffix), n.span());
                        let cur = l.clone();
                        if let Some(i) = self.id("literal + 1", &orig) {
                            *e = parse_quote!((if crate::mt::on(#i) { #alt } else { #cur }));
                        }
                    }
                }
                Lit::Bool(b) => {
                    let v = !b.value;
                    let cur = l.clone();
                    if let Some(i) = self.id("bool flip", &orig) {
                        *e = parse_quote!((if crate::mt::on(#i) { #v } else { #cur }));
                    }
                }
                _ => {}
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let alts: &[&str] = match name.as_str() {
                    "is_some" => &["is_none"],
                    "is_none" => &["is_some"],
                    "is_even" => &["is_odd"],
                    "is_odd" => &["is_even"],
                    "square" => &["double"],
                    "double" if m.args.is_empty() => &["square", "-recv"],
                    "inverse" => &["-recv"],
                    "negate" | "mul_by_cofactor" | "unwrap_or" => &[],
                    "any" => &["all"],
                    "all" => &["any"],
                    "rev" => &["-recv"],
                    "min" => &["max"],
                    _ => &[],
                };
                visit_mut::visit_expr_method_call_mut(self, m);
                let mut cur: Expr = Expr::MethodCall(m.clone());
                for a in alts {
                    if let Some(i) = self.id(&format!("call {}", a), &orig) {
                        let alt: Expr = if *a == "-recv" {
                            let r = m.receiver.clone();
                            if name == "inverse" || name == "double" { parse_quote!((#r).clone()) } else { *r }
                        } else {
                            let mut k = m.clone();
                            k.method = Ident::new(a, m.method.span());
                            Expr::MethodCall(k)
                        };
                        cur = parse_quote!((if crate::mt::on(#i) { #alt } else { #cur }));
                    }
                }
                if m.args.len() == 2 && !name.contains("fold") {
                    if let Some(i) = self.id("swap args", &orig) {
                        let mut k = m.clone();
                        let (x, y) = (m.args[0].clone(), m.args[1].clone());
                        k.args[0] = y;
                        k.args[1] = x;
                        cur = parse_quote!((if crate::mt::on(#i) { #k } else { #cur }));
                    }
                }
                if (name == "switch" || name == "enforce") && m.args.len() >= 2 {
                    let k2 = m.clone();
                    if name == "switch" {
                        if let Some(i) = self.id("switch keeps self", &orig) {
                            let r = k2.receiver.clone();
                            cur = parse_quote!((if crate::mt::on(#i) { (#r).clone() } else { #cur }));
                        }
                    }
                }
                *e = cur;
            }
            Expr::Call(c) => {
                visit_mut::visit_expr_call_mut(self, c);
            }
            Expr::Macro(_) | Expr::Array(_) if false => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let name = a[1].rsplit("/src/").next().unwrap().to_string();
    let mut m = M { next: a[3].parse().unwrap(), skip: a[4..].iter().map(|x| x.parse().unwrap()).collect(), file: name, func: vec![], list: vec![], noint: 0 };
    m.visit_file_mut(&mut f);
    std::fs::write(&a[2], quote!(#f).to_string()).unwrap();
    for l in &m.list {
        println!("{}", l);
    }
    println!("{}\tNEXT\t\t\t", m.next);
}
