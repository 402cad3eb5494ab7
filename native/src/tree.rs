use wolfram_parser::cst::*;
use wolfram_parser::cst::Cst;
use wolfram_parser::tokenize::*;
use wolfram_parser::source::*;

pub type C<'i> = Cst<TokenStr<'i>, Span>;
pub type T<'i> = Token<TokenStr<'i>, Span>;

/// The ordered list of child sequences of a node.
pub fn children<'a, 'i>(n: &'a C<'i>) -> Vec<&'a C<'i>> {
    fn op<'a, 'i, O>(o: &'a OperatorNode<TokenStr<'i>, Span, O>) -> Vec<&'a C<'i>> {
        o.children.0.iter().collect()
    }
    match n {
        Cst::Token(_) => vec![],
        Cst::Call(CallNode { head, body }) => {
            let mut v: Vec<&C<'i>> = match head {
                CallHead::Concrete(s) => s.0.iter().collect(),
                CallHead::Aggregate(b) => vec![&**b],
            };
            match body {
                CallBody::Group(GroupNode(o)) => v.extend(o.children.0.iter()),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => v.extend(o.children.0.iter()),
            }
            v
        },
        Cst::SyntaxError(s) => s.children.0.iter().collect(),
        Cst::Prefix(PrefixNode(o)) => op(o),
        Cst::Infix(InfixNode(o)) => op(o),
        Cst::Postfix(PostfixNode(o)) => op(o),
        Cst::Binary(BinaryNode(o)) => op(o),
        Cst::Ternary(TernaryNode(o)) => op(o),
        Cst::PrefixBinary(PrefixBinaryNode(o)) => op(o),
        Cst::Compound(CompoundNode(o)) => op(o),
        Cst::Group(GroupNode(o)) => op(o),
        Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => op(o),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(o)) => op(o),
        Cst::Box(b) => b.children.0.iter().collect(),
        Cst::Code(_) => vec![],
    }
}

pub fn leaves<'a, 'i>(n: &'a C<'i>, out: &mut Vec<&'a T<'i>>) {
    if let Cst::Token(t) = n {
        out.push(t);
        return;
    }
    for c in children(n) {
        leaves(c, out);
    }
}

/// A group still open at the end of input, which recovery re-reads.  A group
/// without closer inside a closed group was abandoned at that group's closer
/// and keeps its leaves.
pub fn has_missing_closer(n: &C) -> bool {
    match n {
        Cst::Group(_) => return false,
        Cst::GroupMissingCloser(_) => return true,
        Cst::Call(CallNode { body: CallBody::GroupMissingCloser(_), .. }) => return true,
        Cst::Call(CallNode { head: CallHead::Concrete(h), .. }) => return h.0.iter().any(has_missing_closer),
        Cst::Call(CallNode { head: CallHead::Aggregate(h), .. }) => return has_missing_closer(h),
        _ => {},
    }
    children(n).into_iter().any(has_missing_closer)
}

pub fn loc(l: Location) -> (u32, u32) {
    match l {
        Location::LineColumn(LineColumn(a, b)) => (a.get(), b.get()),
        Location::CharacterIndex(i) => (0, i),
    }
}

pub fn op_name(n: &C) -> String {
    match n {
        Cst::Prefix(PrefixNode(o)) => format!("{:?}", o.op),
        Cst::Infix(InfixNode(o)) => format!("{:?}", o.op),
        Cst::Postfix(PostfixNode(o)) => format!("{:?}", o.op),
        Cst::Binary(BinaryNode(o)) => format!("{:?}", o.op),
        Cst::Ternary(TernaryNode(o)) => format!("{:?}", o.op),
        Cst::PrefixBinary(PrefixBinaryNode(o)) => format!("{:?}", o.op),
        Cst::Compound(CompoundNode(o)) => format!("{:?}", o.op),
        Cst::Group(GroupNode(o)) => format!("{:?}", o.op),
        Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => format!("{:?}", o.op),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(o)) => format!("{:?}", o.op),
        Cst::SyntaxError(s) => format!("{:?}", s.err),
        Cst::Call(CallNode { body, .. }) => match body {
            CallBody::Group(GroupNode(o)) => format!("{:?}", o.op),
            CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => format!("missing {:?}", o.op),
        },
        Cst::Token(_) | Cst::Box(_) | Cst::Code(_) => String::new(),
    }
}
