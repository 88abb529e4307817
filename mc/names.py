"""Every HTML element and attribute, in combination with the constructs.

Nothing in the templates depends on the names, apart from the void elements,
script and style, and the attributes that are translated."""
from mc import core, tk

HTML = """a abbr acronym address applet article aside audio b bdi bdo big blockquote body button canvas caption center cite code colgroup data
datalist dd del details dfn dialog dir div dl dt em fieldset figcaption figure font footer form frame frameset g h1 h2 h3 h4 h5 h6 head header
hgroup i iframe image ins kbd label legend li listing main map mark marquee math menu menuitem meter nav nobr noembed noframes noscript object ol
optgroup option output p picture plaintext portal pre progress q rb rp rt rtc ruby s samp script search section select slot small span strike
strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr tt u ul var video xmp circle path
foreignobject my-element x-y.z svg:g py tal a1""".split()
VOIDS = "area base br col embed hr img input link meta param source track wbr".split()
TAGS = HTML + VOIDS

ATTRS = """abbr accept accept-charset accesskey action align allow alt aria-label aria-hidden async autocapitalize autocomplete autofocus autoplay
background bgcolor border capture caption charset checked cite class code color cols colspan content contenteditable controls coords crossorigin
data data-title data-x_y datetime decoding default defer dir dirname disabled download draggable enctype enterkeyhint for form formaction
formenctype formmethod formnovalidate formtarget headers height hidden high href hreflang http-equiv id inert inputmode integrity is itemid
itemprop itemref itemscope itemtype kind label lang language list loop low max maxlength media method min minlength multiple muted name nonce
novalidate onclick onload open optimum part pattern ping placeholder playsinline popover poster preload readonly referrerpolicy rel required rev
reversed role rows rowspan sandbox scope selected shape size sizes slot span spellcheck src srcdoc srclang srcset start step style summary
tabindex target test title titles translate type usemap value vars each function wrap width xml:lang xlink:href xmlns xmlns:svg @click :key
v-on:click.prevent v-if #ref (click) [x] x1 _x - strip replace if else tal py""".split()

TITLE = (("t", " t & "),)
FORMS = {
    "none": ((), ()),
    "static": ((("k", (("t", "<'"),)),), (("t", " a & "), ("x", "v"))),
    "dynamic": ((("class", (("x", "v"),)),), ()),
    "title": ((("title", TITLE),), (("t", "a\n"),)),
    "mixed": ((("alt", (("t", "a"), ("x", "v"))), ("id", None)), (("c", "if", "c", (), (("t", " t<"),)), ("x", "v"))),
    "nested": ((), (("el", "b", (), (), (("t", "<"), ("n", "v"))), ("t", "-"), ("el", "br", (), (), ()))),
}
CTLS = {
    "": (), "strip": (("strip", "c"),), "strip0": (("strip", ""),), "attrs": (("attrs", "at"),), "content": (("content", "v"),),
    "replace": (("replace", "v"),), "if": (("if", "c"),), "unless": (("unless", "c"),), "for": (("for", ("i", "w")),),
    "with": (("with", (("v", "'&'"),)),), "def": (("def", ("f", None)),), "block": (("block", "bl"),),
    "all": (("if", "not c"), ("for", ("i", "w")), ("strip", "c"), ("attrs", "at")),
}


def gen_tags(ctls=tuple(sorted(CTLS)), forms=tuple(sorted(FORMS))):
    def gen(choose):
        tag, ctl, form = choose(TAGS), choose(ctls), choose(forms)
        if tag in VOIDS and (ctl == "content" or form == "nested"):
            raise core.Skip()
        if tag in ("script", "style") and form == "nested":
            raise core.Skip()
        if tag in ("script", "style") and form == "mixed":
            raise core.Skip()
        return tag, ctl, form
    return gen


def tag_nodes(case):
    tag, ctl, form = case
    attrs, kids = FORMS[form]
    if tag in VOIDS:
        kids = ()
    nodes = [("t", "1"), ("el", tag, attrs, CTLS[ctl], kids), ("t", "2")]
    if ctl == "def":
        nodes.append(("x", "f()"))
    return (("el", "html", (), (), tuple(nodes)),)


VALUES = {
    "static": (("t", "a < 'b'"),), "empty": (), "spaces": (("t", " a\n "),), "dollar": (("t", "$5"),), "novalue": None, "dynamic": (("x", "v"),), "name": (("n", "v"),),
    "mixed": (("t", "a & "), ("n", "v"), ("t", " ")), "two": (("x", "v"), ("x", "v")), "url": (("t", "/x?a=1&b="), ("x", "v")),
}


def gen_attrs(values=tuple(sorted(VALUES)), ctls=("", "attrs"), tags=("p", "input")):
    def gen(choose):
        return choose(ATTRS), choose(values), choose(tags), choose(ctls)
    return gen


def attr_nodes(case):
    name, value, tag, ctl = case
    c = (("attrs", "[(%r, v), ('z', w)]" % name),) if ctl == "given" else CTLS[ctl]
    attrs = () if ctl == "given" else ((name, VALUES[value]),)
    kids = () if tag in VOIDS else (("t", " a "), ("x", "v"))
    return (("el", "html", (), (), (("el", tag, attrs, c, kids),)),)


def contexts(values):
    return [dict(v=v, c=c, w=w, at={"z": v, "y": True}) for v in values for c, w in ((True, [1, 2]), (False, []))]
