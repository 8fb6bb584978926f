"""The documented expansion, as a specification over the syntax tree types.

Every function is a decision procedure over a World and returns a list of items:
token items as in the engine, and
  ("R", labels, items)            a region: a difference in it is a difference in these properties
  ("S", src, ety, name, fn, labels)   `fn` of every element of the list `src`, in order
  ("G", src, ety, name, ...)      slots, grouped by name
  ("N", kind, acc)                expansion of a child node / element / slot (checked separately)
Inputs that must be reported raise SpecError.
"""
from .world import Acc, SpecError, Undecided, q
from engine.core import norm_str

NOT_RAW = ("_", "self", "Self", "super", "crate", "$crate")


def R(labels, items):
    if isinstance(labels, str):
        labels = tuple(labels.split())
    return ("R", labels, items)


def u(acc):
    return ("u", acc.key)


def lst(acc):
    """the list inside of (newtypes around) a Vec"""
    for _ in range(4):
        t = acc.tinfo()
        if t["k"] == "adt" and t.get("local") and len(t["variants"]) == 1 and len(t["variants"][0]["f"]) == 1:
            acc = Acc(acc.w, ("sym", acc.key + (("f", 0),), t["variants"][0]["f"][0][1]))
        else:
            break
    return acc.elems()


# ------------------------------------------------------------------ fields
def f_tag(e): return e.field(("tag", r"::Tag$"))
def f_selectors(e): return e.field(("selectors", r"SelectorShorthands$"))
def f_attrs(e): return e.field(("attrs", r"Attrs$"))
def f_args(e): return e.field(("children_args", r"Option<proc_macro2::TokenStream>$"))
def f_children(e): return e.field(("children", r"Option<.*Children>$"))
def f_repr(k): return k.field(("repr", r"String$"))
def f_dir(d): return d.field(("dir", r"proc_macro2::Ident$"))
def f_key(d): return d.field(("key", r"KebabIdent"))
def f_modifier(d): return d.field(("modifier", r"Option<proc_macro2::Ident>$"))
def f_value(d): return d.field(("value", r"Value"))


# ------------------------------------------------------------------ names
def kebab_atoms(k):
    """text of a kebab identifier"""
    return f_repr(k).text()


def lit_kebab(k):
    return ("lit", kebab_atoms(k))


def raw_snake(w, k, label="C20"):
    """r#name_of_the_key: an identifier made of a kebab identifier"""
    op = norm_str((("op", "replace", kebab_atoms(k), ("-", "_")),))
    return raw(w, op, label)


def raw(w, at, label="C20"):
    if w.is_(("str", tuple(at)), NOT_RAW):
        raise SpecError(label, "a name that cannot be an identifier")
    return ("id", ("r#",) + tuple(at))


def key_atoms(w, key):
    """text of the key of a directive (identifier or string)"""
    if key.variant() == "KebabIdent":
        return kebab_atoms(key.pay("KebabIdent"))
    return key.pay("Str").text()


def key_ident(w, key, label):
    if key.variant() == "Str":
        raise SpecError(label, "a string where a name is needed")
    return raw_snake(w, key.pay("KebabIdent"))


# ------------------------------------------------------------------ values
def value(w, v):
    k = v.variant()
    if k == "Lit":
        return [R("C18", [("lit?", v.pay("Lit"))])]
    if k == "Block":
        return [R("C18", q("{ $t }", t=u(v.pay("Block", pat=("tokens", "TokenStream")))))]
    if k == "Bracket":
        toks = u(v.pay("Bracket", pat=("tokens", "TokenStream")))
        pre = v.pay("Bracket", pat=("prefixes", "Option<"))
        if pre.variant() == "None":
            return [R("C17 C18", q("move || { $t }", t=toks))]
        p = pre.pay("Some")
        if p.text_is("f"):
            return [R("C17 C18", q("move || ::std::format! ( $t )", t=toks))]
        raise SpecError("C17", "an unknown prefix of a bracketed value")
    raise Undecided("kind of value " + k)


def opt_value(w, ov, default=None):
    if ov.variant() == "Some":
        return value(w, ov.pay("Some"))
    return default or []


TRUE = [("id", ("true",))]


# ------------------------------------------------------------------ XML elements
def is_dashed(w, atoms):
    """an attribute that is not a method: has a dash and is not aria-*"""
    return w.bool("strpred", "contains", tuple(atoms), "-") and not w.bool("strpred", "starts_with", tuple(atoms), "aria-")


def xml_kv(tag):
    def f(w, a):
        if a.variant() != "Kv":
            return []
        a = a.pay("Kv")
        k, v = a.field(("key", "KebabIdent$")), a.field(("value", "Value$"))
        val = value(w, v)
        t = kebab_atoms(k)
        if f_repr(k).text_is("ref"):
            return [R("C21", q(". node_ref ( $v )", v=val))]
        cls = f_repr(k).text_is("class", "style")
        if not cls and (tag in ("Svg", "WebComponent") or is_dashed(w, t)):
            return [R("C21", q(". attr ( $k , ::leptos::prelude::IntoAttributeValue::into_attribute_value ( $v ) )", k=R("C20 C21", [lit_kebab(k)]), v=val))]
        return [R("C21", q(". $k ( $v )", k=R("C20 C21", [raw_snake(w, k)]), v=val))]
    return f


def no_modifier(d, label):
    if f_modifier(d).variant() == "Some":
        raise SpecError(label, "a modifier on a directive that takes none")


def event_path(w, d, label):
    key = f_key(d)
    if key.variant() == "Str":
        raise SpecError(label, "a string as an event name")
    ev = q("::leptos::tachys::html::event::$e", e=R("C20 " + label, [raw_snake(w, key.pay("KebabIdent"))]))
    m = f_modifier(d)
    if m.variant() == "Some":
        m = m.pay("Some")
        if not m.text_is("undelegated"):
            raise SpecError(label, "an unknown event modifier")
        return q("::leptos::tachys::html::event::undelegated ( $e )", e=ev)
    return ev


def xml_directive(w, a):
    if a.variant() != "Directive":
        return []
    d = a.pay("Directive")
    name, key, val = f_dir(d), f_key(d), f_value(d)
    L = "C05"
    if name.text_is("class", "style"):
        no_modifier(d, L)
        return [R(L, q(". $n ( ( $k , $v ) )", n=("id", name.text()), k=R("C20 C05", [("lit", key_atoms(w, key))]), v=opt_value(w, val)))]
    if name.text_is("prop"):
        no_modifier(d, L)
        return [R(L, q(". $n ( $k , $v )", n=("id", name.text()), k=R("C20 C05", [("lit", key_atoms(w, key))]), v=opt_value(w, val)))]
    if name.text_is("on"):
        return [R(L, q(". $n ( $e , $v )", n=("id", name.text()), e=event_path(w, d, L), v=opt_value(w, val)))]
    if name.text_is("use"):
        fn = key_ident(w, key, L)
        no_modifier(d, L)
        return [R(L, q(". directive ( $f , $v )", f=R("C20 C05", [fn]), v=use_value(w, val)))]
    raise SpecError(L, "a directive that elements do not have")


def use_value(w, val):
    if val.variant() == "Some":
        return q("::std::convert::Into::into ( $v )", v=value(w, val.pay("Some")))
    return q("( ) . into ( )")


def xml_class(w, s):
    if s.variant() != "Class":
        return []
    return [R("C24", q(". class ( ( $n , true ) )", n=[("str_block", kebab_atoms(s.pay("Class", pat=("class", "KebabIdent"))))]))]


def xml_id(w, s):
    if s.variant() != "Id":
        return []
    return [R("C24", q(". id ( $n )", n=[("str_block", kebab_atoms(s.pay("Id", pat=("id", "KebabIdent"))))]))]


def spread_expr(a):
    return u(a.pay("Spread").field(("rest", "TokenStream")))


def xml_spread(w, a):
    if a.variant() != "Spread":
        return []
    return [R("C05 C18", q(". add_any_attr ( $e )", e=spread_expr(a)))]


def xml_child(w, c):
    if c.variant() != "Node":
        return []
    return [R("C02", q(". child ( $n )", n=[("N", "node", c.pay("Node"))]))]


def no_slot(w, c):
    if c.variant() == "Slot":
        raise SpecError("C07", "a slot where no slot can be")


TAGS = {"Html": "::leptos::tachys::html::element::", "Svg": "::leptos::tachys::svg::", "Math": "::leptos::tachys::mathml::"}


def xml(w, el, kind, spec):
    tag = f_tag(el)
    if kind == "WebComponent":
        path = q("::leptos::tachys::html::element::custom ( $n )", n=[R("C20 C19", [lit_kebab(tag.pay("WebComponent"))])])
    elif kind in TAGS:
        path = q(TAGS[kind] + "$t ( )", t=[("id", tag.pay(kind).text())])
    else:
        raise Undecided("kind of tag " + kind)
    if f_args(el).variant() == "Some":
        spec.error("C23", "closure arguments on an element")
    asrc, aty = lst(f_attrs(el))
    ssrc, sty = lst(f_selectors(el))
    spec.errors(asrc, aty, "xml attributes of " + kind, lambda w, a: (xml_kv(kind)(w, a), xml_directive(w, a)), ("C05", "C21"))
    out = [R("C19", path),
           ("S", asrc, aty, "attributes:" + kind, xml_kv(kind), ("C21",)),
           ("S", asrc, aty, "directives", xml_directive, ("C05",)),
           ("S", ssrc, sty, "class selectors", xml_class, ("C24",)),
           ("S", ssrc, sty, "id selectors", xml_id, ("C24",)),
           ("S", asrc, aty, "spreads", xml_spread, ("C05",))]
    ch = f_children(el)
    if ch.variant() == "Some":
        csrc, cty = lst(ch.pay("Some"))
        out.append(("S", csrc, cty, "children", xml_child, ("C02",)))
        spec.errors(csrc, cty, "slots in elements", no_slot, ("C07",))
    return out


# ------------------------------------------------------------------ components
def comp_kv(w, a):
    if a.variant() != "Kv":
        return []
    a = a.pay("Kv")
    k, v = a.field(("key", "KebabIdent$")), a.field(("value", "Value$"))
    val = value(w, v)
    return [R("C06", q(". $k ( $v )", k=R("C20 C06", [raw_snake(w, k)]), v=val))]


def comp_directive(w, d):
    name, key, val = f_dir(d), f_key(d), f_value(d)
    L = "C06"
    if name.text_is("class", "style"):
        no_modifier(d, L)
        n = ("id", name.text())
        return [R(L, q("::leptos::tachys::html::$n::$n ( ( $k , $v ) )", n=n, k=R("C20 C06", [("lit", key_atoms(w, key))]), v=opt_value(w, val, TRUE)))]
    if name.text_is("attr"):
        no_modifier(d, L)
        at = key_atoms(w, key)
        v = opt_value(w, val, TRUE)
        for c in ("class", "style"):
            if w.is_(("str", tuple(at)), (c,)):
                i = key_ident(w, key, L)
                return [R(L, q("::leptos::tachys::html::$m::$i ( $v )", m=("id", (c,)), i=R("C20 C06", [i]), v=v))]
        if is_dashed(w, at):
            return [R(L + " C21", q("::leptos::tachys::html::attribute::custom::custom_attribute ( $k , $v )", k=R("C20 C06", [("lit", tuple(at))]), v=v))]
        return [R(L + " C21", q("::leptos::tachys::html::attribute::$i ( $v )", i=R("C20 C06", [key_ident(w, key, L)]), v=v))]
    if name.text_is("prop"):
        no_modifier(d, L)
        return [R(L, q("::leptos::tachys::html::property::prop ( $k , $v )", k=R("C20 C06", [("lit", key_atoms(w, key))]), v=opt_value(w, val, TRUE)))]
    if name.text_is("on"):
        return [R(L, q("::leptos::tachys::html::event::on ( $e , $v )", e=event_path(w, d, L), v=opt_value(w, val)))]
    if name.text_is("use"):
        fn = key_ident(w, key, L)
        no_modifier(d, L)
        return [R(L, q("::leptos::tachys::html::directive::directive ( $f , $v )", f=R("C20 C06", [fn]), v=use_value(w, val)))]
    raise SpecError(L, "an unknown directive on a component")


def comp_extra(w, a):
    """attributes that are added to the view of the component: (directive,) / (spread,)"""
    k = a.variant()
    if k == "Directive":
        d = a.pay("Directive")
        if f_dir(d).text_is("clone"):
            return []
        return comp_directive(w, d) + q(",")
    if k == "Spread":
        return [R("C06 C18", q("$e ,", e=spread_expr(a)))]
    return []


def comp_clone(w, a):
    if a.variant() != "Directive":
        return []
    d = a.pay("Directive")
    if not f_dir(d).text_is("clone"):
        return []
    i = key_ident(w, f_key(d), "C23")
    no_modifier(d, "C23")
    if f_value(d).variant() == "Some":
        raise SpecError("C23", "a value on `clone:`")
    return [R("C23 C09", q("let $i = $i . clone ( ) ;", i=i))]


def comp_class(w, s):
    if s.variant() != "Class":
        return []
    return [R("C24 C06", q("::leptos::tachys::html::class::class ( ( $k , true ) ) ,", k=[("lit", kebab_atoms(s.pay("Class", pat=("class", "KebabIdent"))))]))]


def no_selector(w, s):
    raise SpecError("C07", "a selector on a slot")


def comp_attr_errors(slot):
    def f(w, a):
        k = a.variant()
        if k == "Kv":
            comp_kv(w, a)
        elif k == "Spread":
            if slot:
                raise SpecError("C07", "a spread on a slot")
        elif f_dir(a.pay("Directive")).text_is("clone"):
            comp_clone(w, a)
        elif slot:
            raise SpecError("C07", "a directive on a slot")
        else:
            comp_extra(w, a)
    return f


def comp_child(w, c):
    if c.variant() != "Node":
        return []
    return [R("C02", [("N", "node", c.pay("Node"))] + q(","))]


def component(w, el, slot, spec):
    tag = f_tag(el)
    path = ("path", tag.pay("Component"))
    asrc, aty = lst(f_attrs(el))
    ssrc, sty = lst(f_selectors(el))
    ch, args = f_children(el), f_args(el)
    spec.errors(asrc, aty, "component attributes" + (" of a slot" if slot else ""), comp_attr_errors(slot), ("C07",) if slot else ("C06",))
    spec.segment_errors(tag.pay("Component"))
    if slot:
        if w.exists(ssrc, sty, lambda w, a: True, "any selector"):
            spec.error("C07", "selectors on a slot")
    children, slots = [], []
    if ch.variant() == "Some":
        csrc, cty = lst(ch.pay("Some"))
        has_args = args.variant() == "Some"
        if has_args or w.exists(csrc, cty, lambda w, a: a.variant() == "Node", "node children"):
            frag = q("::leptos::prelude::View::new ( ( $c ) )", c=[("S", csrc, cty, "component children", comp_child, ("C02",))])
            if has_args:
                body = q("move $a $f", a=R("C23 C18", [u(args.pay("Some"))]), f=R("C27", frag))
            else:
                body = q("::leptos::children::ToChildren::to_children ( move || $f )", f=R("C27", frag))
            children = [R("C23 C02", q(". children ( { $c $b } )", c=[("S", asrc, aty, "clones", comp_clone, ("C23", "C09"))], b=body))]
        slots = [("G", csrc, cty, "slots", ("C07",))]
        spec.errors(csrc, cty, "slot children", slot_child_errors, ("C07",))
    attrs = [("S", asrc, aty, "component attributes", comp_kv, ("C06",))]
    build = q(". build ( )")
    if slot:
        return [R("C07", q("::std::convert::Into::into ( $p::builder ( ) $a $c $s $b )", p=R("C25 C07", [path]), a=attrs, c=children, s=slots, b=build))]
    ids = []
    if w.exists(ssrc, sty, lambda w, a: a.variant() == "Id", "id selectors"):
        ids = [R("C24 C06", q("::leptos::tachys::html::attribute::r#id ( $v ) ,", v=[("joined", ssrc, sty)]))]
    extra = [("S", ssrc, sty, "class selectors", comp_class, ("C24",))] + ids + [("S", asrc, aty, "directives and spreads", comp_extra, ("C06",))]
    return [R("C25", q("# [ allow ( unreachable_code ) ] ::leptos::prelude::View::new ( ::leptos::component::component_view ( & $p , "
                       "::leptos::component::component_props_builder ( & $p ) $a $c $s $b ) . add_any_attr ( ( $x ) ) )",
                       p=R("C25", [path]), a=attrs, c=children, s=slots, b=build, x=extra))]


def slot_ident(w, c):
    """(path, its only identifier) of a slot child"""
    e = c.pay("Slot", pat=("1", "Element"))
    tag = f_tag(e)
    if tag.variant() != "Component":
        raise SpecError("C07", "a slot that is not a component")
    path = tag.pay("Component")
    if not w.bool("get_ident", path.key):
        raise SpecError("C07", "a slot name that is a path")
    return e, ("text", ("pathident", path.key))


def slot_child_errors(w, c):
    if c.variant() == "Slot":
        e, ident = slot_ident(w, c)
        slot_method(w, ident)


def slot_method(w, ident):
    return raw(w, (("snake", ident),), "C20")


# ------------------------------------------------------------------ nodes
def node(w, n):
    if n.variant() == "Value":
        return [R("C02 C22 C27", q("::leptos::prelude::IntoRender::into_render ( $v )", v=value(w, n.pay("Value"))))]
    return [R("C02 C27", q("::leptos::prelude::IntoRender::into_render ( $v )", v=[("N", "element", n.pay("Element"))]))]


class Spec:
    """error obligations collected while a specification is evaluated"""
    def __init__(self):
        self.must = []      # (label, what): an error of the node itself
        self.per = []       # (src, ety, name, fn, labels): errors of the elements of a list
        self.paths = []     # component paths, whose segments are checked

    def error(self, label, what):
        self.must.append((label, what))

    def errors(self, src, ety, name, fn, labels):
        self.per.append((src, ety, name, fn, labels))

    def segment_errors(self, path):
        self.paths.append(path)


def element(w, el, spec):
    kind = f_tag(el).variant()
    if kind == "Component":
        return component(w, el, False, spec)
    return xml(w, el, kind, spec)


def slot(w, el, spec):
    if f_tag(el).variant() != "Component":
        raise SpecError("C07", "a slot that is not a component")
    return component(w, el, True, spec)
