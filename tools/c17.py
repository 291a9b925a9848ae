"""C17: generated derive programs, compiled against /repo and monitored against a model.

Positive programs: types with every attribute combination the generator knows; the driver compares
header bytes, body bytes, header-driven decoding and typed decoding with a model that Python wrote
beside each type. Negative programs: types whose layout no header can describe must not compile,
while a control twin (the same program without the offending part) must."""
import json, os, random, re, shutil, subprocess, time
import common as c

GEN = os.path.join(c.TARGET, "c17-gen")

CARGO = """[package]
name = "c17gen"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
dlhn = { path = "%s/dlhn" }
refmodel = { path = "%s/refmodel" }
serde = { version = "1", features = ["derive"] }
serde_bytes = "0.11"
time = "0.3"
num-bigint = "0.4"
num-traits = "0.2"
bigdecimal = "0.3"
other = { path = "other" }

[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false

[profile.dev.package."*"]
opt-level = 2
debug = "line-tables-only"

[profile.dev.build-override]
opt-level = 0

[workspace]
"""

# a derive macro of somebody else, whose attributes are none of dlhn's business
OTHER = {"Cargo.toml": "[package]\nname = \"other\"\nversion = \"0.0.0\"\nedition = \"2021\"\n\n[lib]\nproc-macro = true\n",
         "src/lib.rs": "#[proc_macro_derive(Other, attributes(other))]\npub fn other(_: proc_macro::TokenStream) -> proc_macro::TokenStream {\n    Default::default()\n}\n"}


class Field:
    """ty, model expressions (shape, gen, val of `x`), attribute lines, layout facts"""
    def __init__(self, ty, shape=None, gen=None, val=None, attrs=(), de=True, skip=False, feats=()):
        self.ty, self.attrs, self.de, self.skip, self.feats = ty, list(attrs), de, skip, list(feats)
        self.shape = shape or "<%s as Model>::shape()" % ty
        self.gen = gen or ("Default::default()" if skip else "<%s as Model>::gen(r, b)" % ty)
        self.val = val or "Model::val(x)"


LEAVES = ["()", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "String",
          "serde_bytes::ByteBuf", "dlhn::BigUint", "dlhn::BigInt", "dlhn::BigDecimal", "dlhn::Date", "dlhn::DateTime"]


def base_type(g, depth=2):
    k = g.random()
    if depth == 0 or k < 0.55:
        return g.choice(LEAVES)
    t = lambda: base_type(g, depth - 1)
    w = g.randrange(8)
    if w == 0: return "Option<%s>" % t()
    if w == 1:
        e = t()
        return "Vec<%s>" % (e if e != "()" else "u8")
    if w == 2: return "BTreeMap<String, %s>" % t()
    if w == 3: return "HashMap<String, %s>" % t()
    if w == 4: return "::std::option::Option<%s>" % t()
    if w == 5: return "<%s as Same>::T" % t()
    n = g.choice([1, 2, 3, 4, 8, 16] if depth == 2 else [1, 2, 3])
    return "(%s,)" % ", ".join(t() for _ in range(n))


SPECIAL = [
    lambda: Field("num_bigint::BigInt", "Shape::BigInt", "gen_bigint(r, b)", "big_int_val(x)", ['#[serde(with = "dlhn::format::big_int")]'], feats=["with big_int"]),
    lambda: Field("num_bigint::BigUint", "Shape::BigUint", "gen_biguint(r, b)", "big_uint_val(x)", ['#[serde(with = "dlhn::format::big_uint")]'], feats=["with big_uint"]),
    lambda: Field("bigdecimal::BigDecimal", "Shape::BigDec", "gen_bigdec(r, b)", "big_dec_val(x)", ['#[serde(with = "dlhn::format::big_decimal")]'], feats=["with big_decimal"]),
    lambda: Field("time::Date", "Shape::Date", "gen_time_date(r)", "date_val(x)", ['#[serde(with = "dlhn::format::date")]'], feats=["with date"]),
    lambda: Field("time::OffsetDateTime", "Shape::DateTime", "gen_odt(r)", "odt_val(x)", ['#[serde(with = "dlhn::format::date_time")]'], feats=["with date_time"]),
    lambda: Field("&'static str", "Shape::Str", "pick_str(r)", "Val::Str(x.to_string())", de=False, feats=["static str"]),
    lambda: Field("Vec<u8>", "<Vec<u8>>::shape()", attrs=['#[serde(with = "serde_bytes")]'], feats=["with serde_bytes"]),
]

# attributes that leave the layout alone: (line, does it keep deserialization?)
NEUTRAL = [
    ('#[serde(rename = "{n}skip")]', True, "rename"),
    ('#[serde(rename = "{n}skip_serializing_if")]', True, "rename to an attribute's name"),
    ('#[serde(rename(serialize = "{n}a", deserialize = "{n}a"))]', True, "rename both ways"),
    ('#[serde(default)]', True, "default"),
    ('#[serde(default = "Default::default")]', True, "default path"),
    ('#[serde(alias = "{n}skip")]', False, "alias"),
    ('#[serde(skip_deserializing)]', False, "skip_deserializing"),
    ('#[serde(bound = "")]', True, "bound"),
    ('#[serde(bound(serialize = ""))]', True, "bound list"),
    ('/// skip', True, "doc comment"),
    ('#[doc = "#[serde(skip)]"]', True, "doc attribute"),
    ('#[allow(dead_code)]', True, "allow"),
    ('#[cfg(all())]', True, "cfg true"),
    ('#[cfg_attr(any(), serde(skip))]', True, "cfg_attr false skip"),
    ('#[cfg_attr(all(), serde(default))]', True, "cfg_attr true default"),
    ('#[rustfmt::skip]', True, "rustfmt::skip"),
    ('#[serde(rename = "{n}r", default)]', True, "two in one list"),
    ('#[serde(rename = "{n}r")] #[serde(default)]', True, "two lists"),
    ('#[deprecated]', True, "other attribute"),
    ('#[other(skip)]', True, "attribute of another derive: skip"),
    ('#[other(serde(skip))]', True, "attribute of another derive: serde(skip)"),
    ('#[other(skip_serializing, flatten, default)]', True, "attribute of another derive: list"),
    ('#[other(skip_serializing_if = "f")]', True, "attribute of another derive: condition"),
    ('#[serde(default = "skip")]', True, "default from a function called skip"),
]
# names that are words of serde's attributes, at most once in a type
EXACT = ["skip", "skip_serializing", "skip_serializing_if", "flatten", "tag", "untagged", "serde", "skip_deserializing", ""]
# ways to say that a field is not written: (line, does deserialization skip it too?)
SKIPS = [
    ('#[serde(skip)]', True), ('#[serde(skip_serializing)]', False), ('#[serde(skip, default)]', True),
    ('#[serde(default, skip)]', True), ('#[serde(default)]\n    #[serde(skip)]', True),
    ('#[serde(skip)]\n    #[serde(default)]', True), ('#[serde(rename = "{n}x", skip_serializing)]', False),
    ('#[serde(skip_serializing, skip_deserializing)]', True), ('#[serde(skip_deserializing, skip_serializing)]', True),
    ('#[serde(skip_serializing)]\n    #[serde(skip_deserializing)]', True), ('#[serde(skip,)]', True),
    ('#[cfg_attr(all(), serde(skip))]', True), ('#[allow(dead_code)]\n    /// doc\n    #[serde(skip)]', True),
    ('#[serde(bound(serialize = ""), skip)]', True), ('#[serde(skip, default = "Default::default")]', True),
    ('#[serde(rename(serialize = "{n}x"), skip)]', True), ('#[serde( skip )]', True),
    ('#[serde(skip_serializing, default)]', False), ('#[serde(default = "Default::default", skip)]', True),
    ('#[serde(rename = "{n}y")]\n    #[serde(default)]\n    #[serde(skip)]', True),
    ('#[serde()]\n    #[serde(skip)]', True),
]
SKIPPED_TYPES = ["NoHdr", "char", "HashSet<char>", "u16", "String", "Option<u32>", "std::time::Duration", "[u8; 3]", "(u8, bool)"]
CONTAINER = [('#[serde(rename = "skip")]', True), ('#[serde(deny_unknown_fields)]', True), ('#[serde(bound = "")]', True),
             ('#[serde(crate = "serde")]', True), ('#[serde(expecting = "skip")]', True), ('/// doc', True),
             ('#[serde(rename_all = "SCREAMING-KEBAB-CASE")]', True), ('#[serde(rename_all = "camelCase")]', True),
             ('#[serde(rename_all(serialize = "PascalCase", deserialize = "PascalCase"))]', True),
             ('#[other(tag = "t", untagged)]', True), ('#[other(untagged)]', True), ('#[serde(rename = "untagged")]', True),
             ('#[repr(C)]', True), ('#[non_exhaustive]', True), ('#[must_use]', True)]
RAW = ["r#type", "r#fn", "r#struct", "r#match", "r#where", "r#impl", "serde", "skip", "writer", "buf", "W", "self_", "dlhn"]


def tuple_rules(fields):
    """serde: in a tuple, a field with a default must be followed by fields with one"""
    for f in fields[:-1]:
        text = " ".join(f.attrs)
        if "default" in text and not (f.skip and f.de):
            f.attrs = ["#[serde(skip)]"] if f.skip else [a for a in f.attrs if "default" not in a]
            if f.skip: f.feats, f.de = ["skip: #[serde(skip)]"], True


class Gen:
    def __init__(self, seed):
        self.g = random.Random(seed)
        self.n = 0
        self.types = []   # (name, code, features, de, header, values)
        self.nestable = []

    def field(self, i, allow_skip=True, de=True, skip_p=0.25):
        g = self.g
        if allow_skip and g.random() < skip_p:
            line, both = g.choice(SKIPS)
            ty = g.choice(SKIPPED_TYPES)
            return Field(ty, attrs=[line.replace("{n}", self.uniq())], skip=True, de=both,
                         feats=["skip: " + " ".join(line.replace("{n}", "").split())])
        k = g.random()
        if k < 0.15:
            f = g.choice(SPECIAL)()
        elif k < 0.35 and self.nestable:
            n, nde = g.choice(self.nestable)
            f = Field(n, de=nde, feats=["nested derived type"])
            w = g.randrange(5)
            if w == 0: f = Field("Option<%s>" % n, de=nde, feats=["nested derived type"])
            if w == 1: f = Field("BTreeMap<String, %s>" % n, de=nde, feats=["nested derived type"])
        else:
            f = Field(base_type(g))
        if g.random() < 0.35:
            line, keeps, feat = g.choice(NEUTRAL)
            if not (f.ty.startswith("&") or "time::" in f.ty or "<" in f.ty and "as Same" in f.ty) or "default" not in line:
                if "serde(" in line and f.attrs and "bound" in line: pass
                elif "default" in line and not keeps: pass
                else:
                    ok = self.defaultable(f) if ("default" in line or "skip_des" in line) else True
                    if ok:
                        f.attrs.insert(g.randrange(len(f.attrs) + 1), line.replace("{n}", self.uniq()))
                        f.de = f.de and keeps
                        f.feats.append(feat)
        return f

    def defaultable(self, f):
        return f.ty in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "String", "f32", "f64", "()") or f.ty.startswith(("Option<", "Vec<", "BTreeMap<"))

    u = 0

    def uniq(self):
        self.u += 1
        return "u%d" % self.u

    def name(self):
        self.n += 1
        return "T%d" % self.n

    def derives(self, de):
        g = self.g
        d = ["Serialize", "SerializeHeader"] + (["Deserialize"] if de else []) + ["Other"]
        g.shuffle(d)
        k = g.random()
        if k < 0.15:
            return "".join("#[derive(%s)] " % x for x in d)
        if k < 0.25:
            return "#[derive(%s)] #[cfg_attr(all(), derive(%s))]" % (", ".join(d[:-1]), d[-1])
        return "#[derive(%s)]" % ", ".join(d)

    def entry(self, name, feats, de, values=True, refused=None):
        v = "None" if not values else "Some(value_full::<%s>)" % name if de else "Some(value_ser::<%s>)" % name
        return "Entry { name: \"%s\", features: &[%s], shape: <%s as Model>::shape, header: header_of::<%s>, value: %s, refused: %s }" % (
            name, ", ".join('"%s"' % f.replace("\\", "\\\\").replace('"', "'") for f in sorted(set(feats))), name, name, v, refused or "None")

    def add(self, name, code, feats, de, values=True, refused=None, nest=True):
        self.types.append(dict(name=name, code=code, feats=feats, entry=self.entry(name, feats, de, values, refused)))
        if nest and values:
            self.nestable.append((name, de))

    # ---- structs
    def struct(self, fields, kind, container=(), macro=False, extra=()):
        g = self.g
        name = self.name()
        if kind == "tuple": tuple_rules(fields)
        newtype = kind == "tuple" and len(fields) == 1
        if newtype and fields[0].skip:
            raise AssertionError
        de = all(f.de for f in fields)
        feats = [x for f in fields for x in f.feats] + ["struct " + kind] + list(extra)
        names = []
        for i, f in enumerate(fields):
            names.append("f%d" % i)
        if kind == "named" and g.random() < 0.3:
            raws = g.sample(RAW, min(len(RAW), len(fields)))
            for i in range(len(raws)):
                if g.random() < 0.5:
                    names[i] = raws[i]
                    feats.append("odd field name")
        vis = lambda: g.choice(["pub ", "", "pub(crate) "])
        L = [self.derives(de)] + list(container)
        if kind == "named":
            body = "".join("    %s\n    %s%s: %s,\n" % ("\n    ".join(f.attrs), "" if macro else vis(), n, f.ty) for n, f in zip(names, fields))
            code = ("mk_named! { %s struct %s {\n%s} }" if macro else "%s pub struct %s {\n%s}") % ("\n".join(L) + "\n", name, body)
            ctor = "%s { %s }" % (name, ", ".join("%s: %s" % (n, f.gen) for n, f in zip(names, fields)))
            acc = ["self.%s" % n for n in names]
        elif kind == "tuple":
            body = ",\n".join("    %s\n    %s%s" % ("\n    ".join(f.attrs), "" if macro else vis(), f.ty) for f in fields)
            code = ("mk_tuple! { %s struct %s(\n%s); }" if macro else "%s pub struct %s(\n%s);") % ("\n".join(L) + "\n", name, body)
            ctor = "%s(%s)" % (name, ", ".join(f.gen for f in fields))
            acc = ["self.%d" % i for i in range(len(fields))]
        else:
            code = "%s pub struct %s;" % ("\n".join(L) + "\n", name)
            ctor, acc = name, []
        if macro:
            feats.append("made by a macro")
        live = [(a, f) for a, f in zip(acc, fields) if not f.skip]
        code += """
impl Model for %s {
    fn shape() -> Shape { Shape::Struct(vec![%s]) }
    fn gen(r: &mut Rng, b: &mut usize) -> Self { %s }
    fn val(&self) -> Val { Val::Tuple(vec![%s]) }
}
""" % (name, ", ".join(f.shape for _, f in live), ctor, ", ".join("{ let x = &%s; %s }" % (a, f.val) for a, f in live))
        self.add(name, code, feats, de)
        return name

    # ---- enums
    def enum(self, variants, container=(), macro=False, discr=False, extra=()):
        """variants: (kind, fields, attrs, skip, feats, de)"""
        g = self.g
        name = self.name()
        for kind, fs, *_ in variants:
            if kind == "tuple": tuple_rules(fs)
        de = all(d for *_, d in variants) and all(f.de for _, fs, _, sk, _, _ in variants if not sk for f in fs)
        feats = ["enum"] + list(extra)
        L = [self.derives(de)] + list(container)
        defs, shapes, gens, vals, bad = [], [], [], [], []
        for i, (kind, fs, attrs, skip, ft, _) in enumerate(variants):
            v = "V%d" % i
            feats += ft + ["variant " + kind] + [x for f in fs for x in f.feats]
            a = "\n    ".join(attrs)
            names = ["f%d" % k for k in range(len(fs))]
            if kind == "named":
                d = "    %s\n    %s {\n%s    },\n" % (a, v, "".join("        %s\n        %s: %s,\n" % ("\n        ".join(f.attrs), n, f.ty) for n, f in zip(names, fs)))
                ctor = "%s::%s { %s }" % (name, v, ", ".join("%s: %s" % (n, f.gen) for n, f in zip(names, fs)))
                pat = "%s::%s { %s }" % (name, v, ", ".join(names))
            elif kind == "tuple":
                d = "    %s\n    %s(%s),\n" % (a, v, ", ".join("%s\n        %s" % ("\n        ".join(f.attrs), f.ty) for f in fs))
                ctor = "%s::%s(%s)" % (name, v, ", ".join(f.gen for f in fs))
                pat = "%s::%s(%s)" % (name, v, ", ".join(names))
            else:
                d = "    %s\n    %s%s,\n" % (a, v, " = %d" % (i * 3 + 1000) if discr else "")
                ctor = pat = "%s::%s" % (name, v)
            defs.append(d)
            live = [(n, f) for n, f in zip(names, fs) if not f.skip]
            if skip:
                bad.append(ctor)
                vals.append("%s => unreachable!()" % pat)
                continue
            k = len(gens)
            assert k == i
            gens.append("%d => %s" % (k, ctor))
            vv = lambda n, f: "{ let x = %s; %s }" % (n, f.val)
            if not live:
                sh, va = "Variant::Unit", "Val::Unit"
            elif len(live) == 1:
                sh, va = "Variant::Newtype(%s)" % live[0][1].shape, vv(*live[0])
            else:
                sh = "Variant::%s(vec![%s])" % ("Struct" if kind == "named" else "Tuple", ", ".join(f.shape for _, f in live))
                va = "Val::Tuple(vec![%s])" % ", ".join(vv(*x) for x in live)
            shapes.append("(%d, %s)" % (k, sh))
            vals.append("%s => Val::Enum(%d, Box::new(%s))" % (pat, k, va))
        if macro:
            feats.append("made by a macro")
        code = ("mk_item! { %s enum %s {\n%s} }" if macro else "%s pub enum %s {\n%s}") % ("\n".join(L) + "\n", name, "".join(defs))
        code += """
impl Model for %s {
    fn shape() -> Shape { Shape::Enum(vec![%s]) }
    fn gen(r: &mut Rng, b: &mut usize) -> Self { match r.below(%d) { %s _ => unreachable!() } }
    fn val(&self) -> Val { match self { %s } }
}
""" % (name, ", ".join(shapes), max(1, len(gens)), "".join(x + ",\n" for x in gens), ",\n".join(vals) if vals else "_ => unreachable!()")
        if len(gens) > 3:
            # the last variants and the first are the interesting ones
            code = code.replace("match r.below(%d)" % len(gens), "match r.edge(%d)" % len(gens))
        refused = None
        if bad:
            code += "fn refused_%s(r: &mut Rng) -> Vec<Result<Vec<u8>, String>> { let mut bb = 100; let b = &mut bb; vec![%s] }\n" % (
                name, ", ".join("write(&%s)" % x for x in bad))
            refused = "Some(refused_%s)" % name
            feats.append("skipped last variants")
        self.add(name, code, feats, de, values=bool(gens), refused=refused)
        return name

    def variant(self, i, skip=False):
        g = self.g
        kind = g.choice(["unit", "tuple", "tuple", "named", "named"])
        fs = [self.field(k, skip_p=0.3) for k in range(g.choice([0, 1, 1, 2, 2, 3, 5]))] if kind != "unit" else []
        for k, f in enumerate(fs):   # names are per variant
            f.attrs = [a for a in f.attrs]
        attrs, feats, de = [], [], True
        if skip:
            line = g.choice(["#[serde(skip)]", "#[serde(skip_serializing)]", '#[serde(rename = "v%dx", skip)]' % i, "#[allow(dead_code)]\n    #[serde(skip)]",
                             "#[serde(skip_serializing, skip_deserializing)]", '#[serde(rename = "v%dx")]\n    #[serde(skip)]' % i, "#[cfg_attr(all(), serde(skip))]"])
            attrs = [line]
            # fields of a skipped variant need neither header nor serde
            fs = [Field("NoHdr", gen="NoHdr::default()") if g.random() < 0.6 else Field("char", gen="'x'") for _ in fs]
            feats = ["variant skip: " + " ".join(line.replace("v%dx" % i, "").split())]
            de = "skip)" in line or "skip_deserializing" in line
        elif g.random() < 0.3:
            line, keeps = g.choice([('#[serde(rename = "v%dskip")]' % i, True), ('#[serde(alias = "v%da")]' % i, True),
                                    ('#[serde(rename_all = "UPPERCASE")]' if kind == "named" else "/// skip", True), ("#[serde(skip_deserializing)]", False),
                                    ("#[allow(dead_code)]", True), ("#[cfg(all())]", True), ('#[serde(bound = "")]', True), ("#[cfg_attr(any(), serde(skip))]", True),
                                    ("#[rustfmt::skip]", True)])
            attrs, de = [line], keeps
            feats = ["variant attribute: " + line.replace("v%d" % i, "")]
        return (kind, fs, attrs, skip, feats, de)

    def live(self):
        return self.field(0, allow_skip=False)

    def build(self, quick):
        g = self.g
        # every way to skip, in every position of named and tuple structs and variants
        for pos in range(3):
            for k, (line, both) in enumerate(SKIPS):
                def mk(i):
                    if i == pos:
                        return Field(SKIPPED_TYPES[(k + pos) % len(SKIPPED_TYPES)], attrs=[line.replace("{n}", self.uniq())], skip=True, de=both,
                                     feats=["skip: " + " ".join(line.replace("{n}", "").split())])
                    return self.live()
                if quick and (k + pos + g.randrange(2)) % 2 and k > 3:
                    continue
                fs = [mk(i) for i in range(3)]
                w = (k + pos) % 4
                if w == 0: self.struct(fs, "named")
                elif w == 1: self.struct(fs, "tuple")
                else:
                    kind = "named" if w == 2 else "tuple"
                    self.enum([("unit", [], [], False, [], True), (kind, fs, [], False, [], True), ("tuple", [self.live()], [], False, [], True)])
        # every neutral attribute, on a field of each kind of parent
        for k, (line, keeps, feat) in enumerate(NEUTRAL):
            mk = lambda: Field(g.choice(["u8", "String", "Option<u16>", "i64", "Vec<bool>"]), attrs=[line.replace("{n}", self.uniq())], de=keeps, feats=[feat])
            fs = [self.live(), mk(), self.live()]
            w = k % 3
            if w == 0: self.struct(fs, "named")
            elif w == 1: self.struct(fs, "tuple")
            else: self.enum([("named", fs, [], False, [], True), ("tuple", [mk()], [], False, [], True)])
        for k, word in enumerate(EXACT):
            for form in ('rename = "%s"', 'rename(serialize = "%s", deserialize = "%s")'):
                line = "#[serde(%s)]" % form.replace("%s", word)
                mk = lambda: Field(g.choice(["u8", "String", "Option<u16>", "i64", "Vec<bool>"]), attrs=[line], feats=["renamed to a word of serde's"])
                fs = [self.live(), mk(), self.live()]
                if k % 2: self.struct(fs, "named")
                else: self.enum([("named", fs, [], False, [], True), ("tuple", [self.live()], [line], False, ["variant renamed to a word of serde's"], True),
                                 ("unit", [], ["#[other(skip)]"], False, ["variant with an attribute of another derive"], True), ("tuple", [self.live()], [], False, [], True)])
        for f in SPECIAL:
            self.struct([f(), self.live()], g.choice(["named", "tuple"]))
            self.enum([("tuple", [f()], [], False, [], True), ("named", [f(), self.live()], [], False, [], True)])
        for line, keeps in CONTAINER:
            self.struct([self.field(i) for i in range(3)], "named", container=[line], extra=["container: " + line])
            if "deny_unknown" not in line and "repr" not in line:
                self.enum([self.variant(i) for i in range(3)], container=[line], extra=["container: " + line])
        # few fields, all combinations of live and skipped; newtypes; units; transparent
        sk = lambda: Field(g.choice(SKIPPED_TYPES), attrs=["#[serde(skip)]"], skip=True, feats=["skip: #[serde(skip)]"])
        for n in range(0, 4):
            for mask in range(1 << n):
                fs = lambda: [sk() if mask >> i & 1 else self.live() for i in range(n)]
                self.struct(fs(), "named")
                if not (n == 1 and mask):
                    self.struct(fs(), "tuple")
                self.enum([("named", fs(), [], False, [], True), ("tuple", fs(), [], False, [], True)])
        self.struct([], "unit")
        self.enum([("unit", [], [], False, [], True)])
        self.enum([("unit", [], [], False, [], True)] * 5, discr=True, extra=["discriminants"])
        for line, both in SKIPS:
            # serde writes the field of a newtype struct whatever its attributes say
            f = self.live()
            while not self.defaultable(f): f = Field(base_type(g))
            f.attrs, f.de, f.feats = [line.replace("{n}", self.uniq())], False, ["newtype struct with skip"]
            if g.random() < (0.25 if quick else 1): self.struct([f], "tuple")
        self.struct([Field(base_type(g))], "tuple", container=["#[serde(transparent)]"], extra=["transparent"])
        self.struct([Field(base_type(g))], "named", container=["#[serde(transparent)]"], extra=["transparent"])
        self.struct([Field(base_type(g)), sk()], "named", container=["#[serde(transparent)]"], extra=["transparent"])
        self.struct([sk(), Field(base_type(g))], "tuple", container=["#[serde(transparent)]"], extra=["transparent"])
        # an enum of which nothing is left
        self.enum([self.variant(0, skip=True)], extra=["all variants skipped"])
        # at random, also through macros
        for _ in range(40 if quick else 150):
            n = g.choice([1, 2, 3, 4, 5, 8, 13])
            kind = g.choice(["named", "named", "tuple"])
            if kind == "tuple" and n == 1: n = 2
            self.struct([self.field(i, skip_p=g.choice([0, 0.2, 0.5])) for i in range(n)], kind, macro=g.random() < 0.3,
                        container=[g.choice(CONTAINER)[0]] if kind == "named" and g.random() < 0.2 else [])
        for _ in range(30 if quick else 120):
            n = g.choice([1, 2, 3, 4, 6, 9])
            vs = [self.variant(i) for i in range(n)]
            vs += [self.variant(n + i, skip=True) for i in range(g.choice([0, 0, 0, 1, 2]))]
            self.enum(vs, macro=g.random() < 0.3)
        # many fields and variants: counts around the varint's class boundaries
        wide = [126, 127, 128, 129, 130, 255, 256, 257, 300]
        for n in ([127, 128, g.choice(wide)] if quick else wide + [1000]):
            leaf = lambda: Field(g.choice(["u8", "bool", "i16", "()", "u32", "Option<u8>"]))
            sk1 = lambda: Field("NoHdr", attrs=["#[serde(skip)]"], skip=True)
            extra = ["count %d" % n]
            self.struct([leaf() for _ in range(n)], "named", extra=extra)
            # skipped ones do not count
            fs = [leaf() for _ in range(n)] + [sk1() for _ in range(g.choice([1, 2, 5]))]
            g.shuffle(fs)
            self.struct(fs, "tuple", extra=extra + ["skips among many fields"])
            self.enum([("unit", [], [], False, [], True)] * n, extra=["variant " + e for e in extra])
            self.enum([("tuple", [leaf()], [], False, [], True) if i % 7 else ("named", [leaf(), leaf()], [], False, [], True) for i in range(n)]
                      + [self.variant(n + i, skip=True) for i in range(2)], extra=["variant " + e for e in extra])
            fs = [leaf() for _ in range(n)]
            fs2 = [leaf() for _ in range(n)] + [sk1(), sk1()]
            g.shuffle(fs2)
            self.enum([("tuple", fs, [], False, [], True), ("named", fs2, [], False, [], True)], extra=["variant field " + e for e in extra])

    def source(self, control=False):
        if control:
            return "".join([PRELUDE.replace("use crate::numbers::*;\nuse crate::*;\n", "")] +
                           [re.sub(r"\bSerializeHeader(, |(?=\)))", "", t["code"]) + "\n" for t in self.types])
        out = [PRELUDE]
        line = PRELUDE.count("\n")
        self.spans = []
        for t in self.types:
            k = t["code"].count("\n") + 1
            self.spans.append((line + 1, line + k, t["name"]))
            out.append(t["code"] + "\n")
            line += k
        out.append("pub fn entries() -> Vec<Entry> { vec![\n%s] }\n" % "".join(t["entry"] + ",\n" for t in self.types))
        return "".join(out)


CONTROL = """#![allow(dead_code, unused, non_camel_case_types)]
#[path = "%s"]
mod numbers;
use numbers::*;
#[derive(Default, Clone, Debug)]
pub struct NoHdr(pub std::marker::PhantomData<u8>, pub u8);
fn write<T: Serialize>(t: &T) -> Result<Vec<u8>, String> { todo!() }
fn main() {}
""" % os.path.join(c.VERIF, "harness", "src", "numbers.rs")
PRELUDE = """use crate::numbers::*;
use crate::*;
use refmodel::*;
use dlhn::SerializeHeader;
use serde::{Serialize, Deserialize};
use other::Other;
use std::collections::*;

pub trait Same { type T; }
impl<T> Same for T { type T = T; }

pub fn gen_bigint(r: &mut Rng, b: &mut usize) -> num_bigint::BigInt { num_bigint::BigInt::from_signed_bytes_le(&gen_big_bytes(r, true, (*b).min(40))) }
pub fn gen_biguint(r: &mut Rng, b: &mut usize) -> num_bigint::BigUint { num_bigint::BigUint::from_bytes_le(&gen_big_bytes(r, false, (*b).min(40))) }
pub fn gen_bigdec(r: &mut Rng, b: &mut usize) -> bigdecimal::BigDecimal { let n = gen_bigint(r, b); bigdecimal::BigDecimal::new(n, r.below(200) as i64 - 100) }
pub fn pick_str(r: &mut Rng) -> &'static str { *r.pick(&["", "a", "skip", "\\u{3b1}\\u{10ffff}", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"]) }
pub trait Edge { fn edge(&mut self, n: usize) -> usize; }
impl Edge for Rng { fn edge(&mut self, n: usize) -> usize { match self.below(4) { 0 => n - 1, 1 => self.below(n.min(3)), 2 => n - 1 - self.below(n.min(3)), _ => self.below(n) } } }

fn skip<T: Default>() -> T { T::default() }
macro_rules! mk_named { ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty,)* }) => { $(#[$m])* pub struct $n { $($(#[$fm])* pub $f: $t,)* } } }
macro_rules! mk_tuple { ($(#[$m:meta])* struct $n:ident ( $($(#[$fm:meta])* $t:ty),* ) ;) => { $(#[$m])* pub struct $n ( $($(#[$fm])* pub $t),* ); } }
macro_rules! mk_item { ($(#[$m:meta])* enum $n:ident { $($v:tt)* }) => { $(#[$m])* pub enum $n { $($v)* } } }
"""


# ---- programs that must not compile, with the twin that must
H = "#![allow(dead_code, unused)]\nuse dlhn::SerializeHeader;\n"
S = H + "use serde::Serialize;\n"


def negatives():
    r = []

    def add(name, neg, ctl):
        r.append((name, neg + "\nfn main() {}\n", ctl + "\nfn main() {}\n"))
    none = '"Option::is_none"'
    D = "#[derive(Serialize, SerializeHeader)] "
    for tag, a in [("plain", "skip_serializing_if = %s" % none), ("after default", "default, skip_serializing_if = %s" % none),
                   ("before rename", 'skip_serializing_if = %s, rename = "x"' % none), ("second list", 'default)] #[serde(skip_serializing_if = %s' % none),
                   ("cfg_attr", None), ("with closure path", 'skip_serializing_if = "<Option<u8>>::is_none"')]:
        at = "#[serde(%s)]" % a if a else "#[cfg_attr(all(), serde(skip_serializing_if = %s))]" % none
        ct = "#[serde(default)]"
        for form, code in [
            ("named first", "struct A { %s a: Option<u8>, b: u8 }"), ("named last", "struct A { a: u8, b: bool, %s c: Option<u8> }"),
            ("tuple struct", "struct A(u8, %s Option<u8>);"), ("enum named", "enum A { X, Y { a: u8, %s b: Option<u8> } }"),
            ("enum tuple", "enum A { X(u8, %s Option<u8>), Y }"), ("enum only field", "enum A { Y { %s b: Option<u8> } }"),
            ("enum last variant", "enum A { X, Z(u8), Y { a: u8, %s b: Option<u8> } }"),
        ]:
            add("skip_serializing_if %s, %s" % (tag, form), S + D + code % at, S + D + code % ct)
    add("skip_serializing_if, header only", H + "#[derive(SerializeHeader)] struct A { #[serde(skip_serializing_if = %s)] a: Option<u8> }" % none,
        H + "#[derive(SerializeHeader)] struct A { #[serde(default)] a: Option<u8> }")
    add("union", H + "#[derive(SerializeHeader)] #[repr(C)] union A { a: u8, b: u16 }", H + "#[derive(SerializeHeader)] #[repr(C)] struct A { a: u8, b: u16 }")
    add("union of one field", H + "#[derive(SerializeHeader, Clone, Copy)] union A { a: u8 }", H + "#[derive(SerializeHeader, Clone, Copy)] struct A { a: u8 }")
    for form, code in [("named", "struct A { a: u8, b: %s }"), ("tuple", "struct A(%s, u8);"), ("variant", "enum A { X(u8), Y(%s) }"),
                       ("variant named", "enum A { X, Y { a: u8, b: %s } }"), ("inside Vec", "struct A { a: Vec<%s> }"), ("inside tuple", "struct A { a: (u8, %s) }"),
                       ("inside map", "struct A { a: std::collections::BTreeMap<String, %s> }")]:
        for ty in ["char", "N", "u128", "i128", "[u8; 3]"]:
            add("field type %s without header, %s" % (ty, form), H + "struct N;\n#[derive(SerializeHeader)] " + code % ty, H + "struct N;\n#[derive(SerializeHeader)] " + code % "u16")
    add("map with other keys", H + "#[derive(SerializeHeader)] struct A { a: std::collections::BTreeMap<u8, u8> }", H + "#[derive(SerializeHeader)] struct A { a: std::collections::BTreeMap<String, u8> }")
    add("map with char keys", H + "#[derive(SerializeHeader)] struct A { a: std::collections::HashMap<char, u8> }", H + "#[derive(SerializeHeader)] struct A { a: std::collections::HashMap<String, u8> }")
    add("tag", S + D + '#[serde(tag = "t")] enum A { X { a: u8 }, Y }', S + D + '#[serde(rename = "t")] enum A { X { a: u8 }, Y }')
    add("tag on a struct", S + D + '#[serde(tag = "t")] struct A { a: u8 }', S + D + '#[serde(rename = "t")] struct A { a: u8 }')
    add("tag and content", S + D + '#[serde(tag = "t", content = "c")] enum A { X(u8), Y }', S + D + '#[serde(rename = "t")] enum A { X(u8), Y }')
    add("content and tag in two lists", S + D + '#[serde(content = "c")] #[serde(tag = "t")] enum A { X(u8), Y }', S + D + '#[serde(rename = "t")] enum A { X(u8), Y }')
    add("untagged", S + D + '#[serde(untagged)] enum A { X(u8), Y }', S + D + '#[serde(rename = "t")] enum A { X(u8), Y }')
    add("rename_all and untagged", S + D + '#[serde(rename_all = "lowercase", untagged)] enum A { X(u8), Y }', S + D + '#[serde(rename_all = "lowercase")] enum A { X(u8), Y }')
    add("untagged variant", S + D + 'enum A { X(u8), #[serde(untagged)] Y(u16) }', S + D + 'enum A { X(u8), Y(u16) }')
    I = "#[derive(Serialize, SerializeHeader)] struct I { a: u8 }\n"
    add("flatten", S + I + D + 'struct A { b: u8, #[serde(flatten)] i: I }', S + I + D + 'struct A { b: u8, i: I }')
    add("flatten in a variant", S + I + D + 'enum A { X { b: u8, #[serde(flatten)] i: I } }', S + I + D + 'enum A { X { b: u8, i: I } }')
    many = lambda n: (H + "#[derive(SerializeHeader)] struct A { %s }" % ",".join("a%d: ()" % i for i in range(n)))
    add("65536 fields", many(65536), many(300))
    manyv = lambda n: (H + "#[derive(SerializeHeader)] enum A { X, Y(%s) }" % ",".join("()" for i in range(n)))
    add("65536 fields of a variant", manyv(65536), manyv(300))
    manye = lambda n: (H + "#[derive(SerializeHeader)] enum A { %s }" % ",".join("V%d" % i for i in range(n)))
    add("65536 variants", manye(65536), manye(300))
    return r


PROBE = """#![allow(dead_code, unused)]
use dlhn::{DeserializeHeader, Deserializer, SerializeHeader, Serializer, Body};
use serde::Serialize;
%s
fn main() {
    let mut h = Vec::new();
    <A as SerializeHeader>::serialize_header(&mut h).unwrap();
    let header = h.as_slice().deserialize_header().unwrap();
    let v = %s;
    let mut b = Vec::new();
    v.serialize(&mut Serializer::new(&mut b)).unwrap();
    let n = b.len();
    b.extend_from_slice(&[9, 9]);
    let mut r = b.as_slice();
    let body = Body::deserialize(&header, &mut Deserializer::new(&mut r));
    let want = format!(%s);
    let ok = matches!(&body, Ok(x) if r.len() == 2 && format!("{:?}", x) == want);
    println!("{:02x?} under {:?}: {:?}", &b[..n], header, body);
    std::process::exit(if ok { 0 } else { 10 })
}
"""
# name of the finding -> type, value, body that a right header would give
PROBES = {
    "the derived header leaves out a skipped variant, but the index of the variants after it counts it":
        ("#[derive(Serialize, SerializeHeader)] enum A { X(u8), #[serde(skip)] S, Y(u16) }", "A::Y(5)", '"Enum(2, UInt16(5))"'),
    "the derived header of a type with serde(into) describes the type instead of the one it is written as":
        ("#[derive(Clone, Serialize, SerializeHeader)] #[serde(into = \"String\")] struct A(u64);\nimpl From<A> for String { fn from(a: A) -> String { a.0.to_string() } }", "A(5)", '"String(\\"5\\")"'),
    "the derived header of a field with serde(serialize_with) describes its type instead of what the function writes":
        ("fn f<S: serde::Serializer>(x: &u8, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&x.to_string()) }\n"
         "#[derive(Serialize, SerializeHeader)] struct A { #[serde(serialize_with = \"f\")] a: u8 }", "A { a: 5 }", '"Tuple([String(\\"5\\")])"'),
}


def crate(path, bins, main=None, seed=0):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(os.path.join(path, "src", "bin"))
    with open(os.path.join(path, "Cargo.toml"), "w") as f:
        f.write(CARGO % (c.REPO, c.VERIF))
    shutil.copy(os.path.join(c.VERIF, "harness", "Cargo.lock"), os.path.join(path, "Cargo.lock"))
    for name, text in OTHER.items():
        os.makedirs(os.path.dirname(os.path.join(path, "other", name)), exist_ok=True)
        with open(os.path.join(path, "other", name), "w") as f:
            f.write(text)
    for name, src in bins.items():
        with open(os.path.join(path, "src", "bin", name + ".rs"), "w") as f:
            f.write(src)
    if main:
        d = open(os.path.join(c.VERIF, "tools", "c17", "driver.rs")).read()
        with open(os.path.join(path, "src", "main.rs"), "w") as f:
            f.write(d.replace("@NUMBERS@", os.path.join(c.VERIF, "harness", "src", "numbers.rs")))
        with open(os.path.join(path, "src", "gen.rs"), "w") as f:
            f.write(main)


def messages(out):
    """(target name, [(line, text)]) of the errors cargo reports"""
    errs, built, other = {}, set(), []
    for l in out.splitlines():
        if not l.startswith("{"):
            other.append(l[:300])
            continue
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            built.add(j["target"]["name"])
        if j.get("reason") == "compiler-message" and j["message"]["level"].startswith("error"):
            sp = [(s["file_name"], s["line_start"]) for s in j["message"]["spans"] if s.get("is_primary")]
            errs.setdefault(j["target"]["name"], []).append((sp, j["message"]["message"][:300]))
    return errs, built, other


def deps_build():
    """the crates themselves build; otherwise nothing can be said"""
    c.build()


def positive(seed, tier, only=None, cases=None):
    g = Gen(seed)
    g.build(tier == "quick")
    path = os.path.join(GEN, "pos")
    crate(path, {}, g.source())
    code, out = c.cargo(["build", "--offline", "--message-format=json", "--bin", "c17gen"], path, timeout=700 if tier == "quick" else 3000)
    errs, built, other = messages(out)
    by = {t["name"]: t for t in g.types}
    fails = []
    if code != 0:
        for sp, msg in errs.get("c17gen", []):
            if msg.startswith("aborting"):
                continue
            n = [t for (f, l) in sp if f.endswith("gen.rs") for (a, b, t) in g.spans if a <= l <= b]
            fails.append((n[0] if n else None, "does not compile: " + msg))
        named = [f for f in fails if f[0]]
        if not named:
            raise c.NoVerdict("the generated programs do not build: %s %s" % (fails[:3], other[-3:]))
        # the same types without the header derive must compile: otherwise the generator is at fault
        ctl = os.path.join(GEN, "ctl")
        crate(ctl, {"ctl_all": CONTROL + g.source(control=True)})
        code, out = c.cargo(["check", "--offline", "--message-format=json", "--bin", "ctl_all"], ctl, timeout=700)
        if code != 0:
            e, _, o = messages(out)
            raise c.NoVerdict("the generated types do not compile even without the header derive: %s %s" % (e.get("ctl_all", [])[:3], o[-3:]))
        return g, by, named, None
    p = subprocess.run([os.path.join(c.TARGET, "debug", "c17gen"), str(seed), str(cases or (60 if tier == "quick" else 2000))] + ([only] if only else []),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600 if tier == "quick" else 5000)
    summary = None
    for l in p.stdout.splitlines():
        if l.startswith("FAIL "):
            _, n, what = l.split(" ", 2)
            fails.append((n, what))
        if l.startswith("SUMMARY "):
            summary = json.loads(l[8:])
    if summary is None and p.returncode in (-6, -11, -7, -4, -8):
        at = [l[3:] for l in p.stderr.splitlines() if l.startswith("AT ")]
        if at and at[-1] in by:
            return g, by, fails + [(at[-1], "the process dies of signal %d" % -p.returncode)], None
    if summary is None:
        raise c.NoVerdict("the driver ended with %d: %s" % (p.returncode, p.stderr[-500:]))
    return g, by, fails, summary


def negative(tier, seed, only=None):
    negs = negatives()
    if only:
        negs = [n for n in negs if n[0] == only]
    elif tier == "quick":
        # the big ones and the singular ones always; of the product of forms a third
        g = random.Random(seed)
        negs = [n for n in negs if not n[0].startswith(("skip_serializing_if ", "field type")) or "plain" in n[0] or "second list" in n[0] or g.random() < 0.35]
    bins = {}
    for i, (name, neg, ctl) in enumerate(negs):
        bins["neg_%d" % i] = neg
        bins["ctl_%d" % i] = ctl
    names = list(PROBES)
    if not only:
        for i, n in enumerate(names):
            bins["known_%d" % i] = PROBE % PROBES[n]
    path = os.path.join(GEN, "neg")
    crate(path, bins)
    # check is enough for the programs that are not run
    code, out = c.cargo(["check", "--offline", "--keep-going", "--message-format=json", "--bins"], path, timeout=800)
    errs, built, other = messages(out)
    fails, refused = [], []
    for i, (name, neg, ctl) in enumerate(negs):
        if "ctl_%d" % i not in built:
            e = errs.get("ctl_%d" % i)
            if e is None:
                raise c.NoVerdict("control program %s was not built: %s" % (name, other[-3:]))
            fails.append(("neg:" + name, "the control program of '%s', which has nothing the header cannot describe, does not compile: %s" % (name, e[0][1])))
        if "neg_%d" % i in built:
            fails.append(("neg:" + name, "a type whose layout the header cannot describe compiles: %s: %s" % (name, neg.split("use ")[-1][:200])))
        elif "neg_%d" % i not in errs:
            raise c.NoVerdict("program %s was not tried: %s" % (name, other[-3:]))
        else:
            refused.append((name, errs["neg_%d" % i][0][1]))
    known = []
    if not only:
        for i, n in enumerate(names):
            if "known_%d" % i not in built:
                continue  # refused by now: no finding
            code, out = c.cargo(["build", "--offline", "-q", "--bin", "known_%d" % i], path, timeout=300)
            if code != 0:
                raise c.NoVerdict("probe does not build: " + out[-500:])
            p = subprocess.run([os.path.join(c.TARGET, "debug", "known_%d" % i)], stdout=subprocess.PIPE, text=True, timeout=60)
            if p.returncode == 10:
                known.append("KNOWN-FINDING: property=C17 " + n)
            elif p.returncode != 0:
                fails.append(("probe:" + n, "the probe ends with %d: %s" % (p.returncode, p.stdout[-300:])))
    return fails, refused, known


def check(tier, seed):
    t0 = time.time()
    deps_build()
    fails, sums, feats, types = [], [], {}, 0
    bad = None
    rounds = [seed * 1000 + k for k in range(3)] if tier == "quick" else [seed * 1000 + k for k in range(6)]
    for k, s in enumerate(rounds):
        g, by, f, summary = positive(s, tier)
        if summary:
            sums.append(summary)
        if f and bad is None:
            n, what = f[0]
            bad = ("%s (%s)" % (what, " ".join(by[n]["code"].split("impl Model")[0].split())[:500]), dict(kind="pos", gen_seed=s, type=n, tier=tier))
            break
    nf, refused, known = negative(tier, seed)
    if nf and bad is None:
        n, what = nf[0]
        bad = (what, dict(kind="neg", name=n, tier=tier))
    for l in known:
        print(l)
    extra = c.known_lines("C17", known)
    if extra and bad is None:
        bad = ("unlisted finding: " + extra[0], dict(kind="neg", name="probe", tier=tier))
    tot = lambda k: sum(s[k] for s in sums)
    for s in sums:
        for k, v in s["features"].items():
            feats[k] = feats.get(k, 0) + v
    j = dict(property="C17", tier=tier, seed=seed, level="exploration",
             coverage=dict(evaluations=tot("evaluations") + len(refused), distinct_nontrivial=tot("distinct") + len(refused),
                           rule="A case is a value of a generated derived type, its header, its body under that header and its typed decoding, or a program that must not compile (with a control that must); distinct by (type, bytes).",
                           samples=[x for s in sums for x in s["samples"]][:12] + ["refused: %s: %s" % x for x in refused[:6]] or ["none"],
                           generated_types=tot("types"), headers_compared=tot("headers"), longest_header=max([s["longest_header"] for s in sums] or [0]),
                           bodies_decoded_under_header=tot("bodies"), typed_round_trips=tot("typed"), skipped_variants_refused=tot("refused"),
                           programs_refused=len(refused), types_with_feature=feats, known_findings=known),
             assumptions=[], wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    with open(c.evidence("C17"), "w") as f:
        json.dump(j, f)
    if bad:
        c.violation("C17", *bad)
        return 1
    return 0


def replay(j):
    c.build()
    if j["kind"] == "pos":
        g, by, f, s = positive(j["gen_seed"], j["tier"], only=j["type"])
        f = [x for x in f if x[0] == j["type"]]
    elif j["name"].startswith("neg:"):
        f, _, _ = negative(j["tier"], 1, only=j["name"][4:])
    else:
        f, _, known = negative(j["tier"], 1)
        f += [(0, x) for x in c.known_lines("C17", known)]
    for n, what in f:
        print(what[:1000])
    if f:
        print("VIOLATION property=C17 replay=-")
        return 1
    return 0
