//! Converts the tree produced by the parser under test into the harness' model, and lists the span
//! of every construct in the same order as the renderer does.
use cairo_m_compiler_parser::parser as p;
use hcore::ast::*;
use hcore::render::Node;

#[derive(Default)]
pub struct Lower {
    pub nodes: Vec<Node>,
}
type Span = chumsky::span::SimpleSpan<usize>;
impl Lower {
    fn n(&mut self, kind: &'static str, s: Span) { self.nodes.push(Node { kind, start: s.start, end: s.end, tol_end: s.end }) }
    fn id(&mut self, s: &p::Spanned<String>) -> String {
        self.n("ident", s.span());
        s.value().clone()
    }
    pub fn ty(&mut self, t: &p::Spanned<p::TypeExpr>) -> Ty {
        self.n("type", t.span());
        match t.value() {
            p::TypeExpr::Named(n) => match n.value() {
                p::NamedType::Felt => Ty::Felt,
                p::NamedType::Bool => Ty::Bool,
                p::NamedType::U32 => Ty::U32,
                p::NamedType::Custom(s) => Ty::Named(s.clone()),
            },
            p::TypeExpr::Pointer(x) => Ty::Ptr(Box::new(self.ty(x))),
            p::TypeExpr::Tuple(a) => Ty::Tuple(a.iter().map(|x| self.ty(x)).collect()),
            p::TypeExpr::FixedArray { element_type, size } => {
                let e = self.ty(element_type);
                self.n("count", size.span());
                Ty::Array(Box::new(e), *size.value())
            }
        }
    }
    pub fn ex(&mut self, e: &p::Spanned<p::Expression>) -> Ex {
        use p::Expression as E;
        let kind = match e.value() {
            E::Literal(..) => "num", E::BooleanLiteral(_) => "bool", E::Identifier(_) => "id", E::UnaryOp { .. } => "unary",
            E::BinaryOp { .. } => "binary", E::FunctionCall { .. } => "call", E::MemberAccess { .. } => "member",
            E::IndexAccess { .. } => "index", E::StructLiteral { .. } => "struct", E::Tuple(_) => "tuple",
            E::TupleIndex { .. } => "tupidx", E::ArrayLiteral(_) => "array", E::ArrayRepeat { .. } => "repeat",
            E::Cast { .. } => "cast", E::New { .. } => "new", E::Parenthesized(_) => "paren",
        };
        self.n(kind, e.span());
        match e.value() {
            E::Literal(n, s) => Ex::Num(*n, s.clone()),
            E::BooleanLiteral(b) => Ex::Bool(*b),
            E::Identifier(s) => Ex::Id(self.id(s)),
            E::UnaryOp { op, expr } => Ex::Un(if matches!(op, p::UnaryOp::Not) { Un::Not } else { Un::Neg }, Box::new(self.ex(expr))),
            E::BinaryOp { op, left, right } => {
                use p::BinaryOp as B;
                let o = match op {
                    B::Add => Bin::Add, B::Sub => Bin::Sub, B::Mul => Bin::Mul, B::Div => Bin::Div, B::Mod => Bin::Mod,
                    B::Eq => Bin::Eq, B::Neq => Bin::Neq, B::Less => Bin::Lt, B::Greater => Bin::Gt, B::LessEqual => Bin::Le,
                    B::GreaterEqual => Bin::Ge, B::And => Bin::And, B::Or => Bin::Or, B::BitwiseAnd => Bin::BAnd,
                    B::BitwiseOr => Bin::BOr, B::BitwiseXor => Bin::BXor,
                };
                let l = self.ex(left);
                Ex::Bin(o, Box::new(l), Box::new(self.ex(right)))
            }
            E::FunctionCall { callee, args } => {
                let f = self.ex(callee);
                Ex::Call(Box::new(f), args.iter().map(|a| self.ex(a)).collect())
            }
            E::MemberAccess { object, field } => {
                let o = self.ex(object);
                Ex::Member(Box::new(o), self.id(field))
            }
            E::IndexAccess { array, index } => {
                let a = self.ex(array);
                Ex::Index(Box::new(a), Box::new(self.ex(index)))
            }
            E::StructLiteral { name, fields } => {
                let n = self.id(name);
                Ex::Struct(n, fields.iter().map(|(n, e)| (self.id(n), self.ex(e))).collect())
            }
            E::Tuple(a) => Ex::Tuple(a.iter().map(|x| self.ex(x)).collect()),
            E::TupleIndex { tuple, index } => Ex::TupIdx(Box::new(self.ex(tuple)), *index as u64),
            E::ArrayLiteral(a) => Ex::Arr(a.iter().map(|x| self.ex(x)).collect()),
            E::ArrayRepeat { element, count } => {
                let x = self.ex(element);
                self.n("count", count.span());
                Ex::Rep(Box::new(x), *count.value())
            }
            E::Cast { expr, target_type } => {
                let x = self.ex(expr);
                Ex::Cast(Box::new(x), self.ty(target_type))
            }
            E::New { elem_type, count } => {
                let t = self.ty(elem_type);
                Ex::New(t, Box::new(self.ex(count)))
            }
            E::Parenthesized(x) => Ex::Paren(Box::new(self.ex(x))),
        }
    }
    fn pat(&mut self, x: &p::Pattern) -> Pat {
        match x {
            p::Pattern::Identifier(s) => Pat::Id(self.id(s)),
            p::Pattern::Tuple(a) => Pat::Tuple(a.iter().map(|x| self.pat(x)).collect()),
        }
    }
    fn konst(&mut self, c: &p::ConstDef) -> (String, Option<Ty>, Ex) {
        let n = self.id(&c.name);
        let t = c.ty.as_ref().map(|t| self.ty(t));
        (n, t, self.ex(&c.value))
    }
    pub fn st(&mut self, s: &p::Spanned<p::Statement>) -> St {
        use p::Statement as S;
        self.n("stmt", s.span());
        match s.value() {
            S::Let { pattern, statement_type, value } => {
                let pt = self.pat(pattern);
                let t = statement_type.as_ref().map(|t| self.ty(t));
                St::Let(pt, t, self.ex(value))
            }
            S::Const(c) => {
                let (n, t, e) = self.konst(c);
                St::Const(n, t, e)
            }
            S::Assignment { lhs, rhs } => {
                let l = self.ex(lhs);
                St::Assign(l, self.ex(rhs))
            }
            S::Return { value } => St::Return(value.as_ref().map(|e| self.ex(e))),
            S::If { condition, then_block, else_block } => {
                let c = self.ex(condition);
                let t = self.st(then_block);
                St::If(c, Box::new(t), else_block.as_ref().map(|e| Box::new(self.st(e))))
            }
            S::Expression(e) => St::Expr(self.ex(e)),
            S::Block(b) => St::Block(b.iter().map(|s| self.st(s)).collect()),
            S::Loop { body } => St::Loop(Box::new(self.st(body))),
            S::While { condition, body } => {
                let c = self.ex(condition);
                St::While(c, Box::new(self.st(body)))
            }
            S::For { init, condition, step, body } => {
                let i = self.st(init);
                let c = self.ex(condition);
                let s = self.st(step);
                St::For(Box::new(i), c, Box::new(s), Box::new(self.st(body)))
            }
            S::Break => St::Break,
            S::Continue => St::Continue,
        }
    }
    pub fn item(&mut self, i: &p::TopLevelItem) -> Item {
        match i {
            p::TopLevelItem::Function(f) => {
                self.n("item", f.span());
                let d = f.value();
                let name = self.id(&d.name);
                let params = d.params.iter().map(|q| (self.id(&q.name), self.ty(&q.type_expr))).collect();
                // An omitted return type is the unit type with an empty span.
                let s = d.return_type.span();
                let ret = if s.start == s.end { None } else { Some(self.ty(&d.return_type)) };
                Item::Fn(FnDef { name, params, ret, body: d.body.iter().map(|s| self.st(s)).collect() })
            }
            p::TopLevelItem::Struct(s) => {
                self.n("item", s.span());
                let n = self.id(&s.value().name);
                Item::Struct(n, s.value().fields.iter().map(|(n, t)| (self.id(n), self.ty(t))).collect())
            }
            p::TopLevelItem::Const(c) => {
                self.n("item", c.span());
                let (n, t, e) = self.konst(c.value());
                Item::Const(n, t, e)
            }
            p::TopLevelItem::Use(u) => {
                self.n("item", u.span());
                let path = u.value().path.iter().map(|s| self.id(s)).collect();
                Item::Use(path, match &u.value().items {
                    p::UseItems::Single(s) => UseItems::Single(self.id(s)),
                    p::UseItems::List(l) => UseItems::List(l.iter().map(|s| self.id(s)).collect()),
                })
            }
        }
    }
    pub fn module(&mut self, m: &p::ParsedModule) -> Module { m.items().iter().map(|i| self.item(i)).collect() }
}
pub fn lower(m: &p::ParsedModule) -> Module { Lower::default().module(m) }
