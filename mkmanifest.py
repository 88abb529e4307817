"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
REF = "bounded-exhaustive enumeration of %s, each executed on the real code and compared with %s"
MODEL = "the reference interpreter of mc/tk.py"
TRUST = " Trusts that interpreter (bound to the code by executing every enumerated behaviour on the real engine) and markupsafe."
CHECKS = {
 "C01": (REF % ("templates (positions x nestings x expressions x values)", MODEL),
         "Every template of the stated shapes is compiled and rendered by the real engine with every value; exhaustive within the bounds in the evidence." + TRUST),
 "C02": (REF % ("documents (sequences and nestings of markup fragments)", "an event-level oracle and " + MODEL),
         "Exhaustive over fragment sequences up to the bounds in the evidence." + TRUST),
 "C03": (REF % ("strings over the alphabet of significant characters", "an independent scanner for the interpolation syntax"),
         "Exhaustive over strings up to the bounds in the evidence; trusts the scanner and Python's own tokenizer."),
 "C04": (REF % ("nestings and combinations of control constructs", MODEL),
         "Exhaustive over construct combinations up to the bounds in the evidence." + TRUST),
 "C05": (REF % ("nestings of binding constructs and placements of uses", MODEL),
         "Exhaustive within the bounds; combinations that hit documented Python scoping limits are skipped (DESIGN.md)." + TRUST),
 "C06": (REF % ("attribute sequences and values", MODEL),
         "Exhaustive within the bounds in the evidence." + TRUST),
 "C07": (REF % ("inheritance chains and histories of loads and renders", MODEL),
         "Exhaustive over override assignments and load/render orders within the bounds." + TRUST),
 "C08": (REF % ("importers, imported templates, name collisions and histories of loads", MODEL),
         "Exhaustive over assignments of names to importer, parent, child and imported templates within the bounds." + TRUST),
 "C10": ("bounded-exhaustive enumeration of histories of buffer operations, each executed on both implementations in lock step and compared after every operation",
         "Exhaustive over operation sequences up to the bounds in the evidence; the two implementations are each other's oracle, so a defect shared by both is left to C01/C06."),
 "C11": ("bounded-exhaustive enumeration of histories of buffer operations with failing values, executed on the C implementation with reference-count accounting of every object involved",
         "Exhaustive over operation sequences up to the bounds; Markup.__mod__ is excluded because markupsafe's own formatting is outside the repository."),
 "C12": (REF % ("templates of texts, whitespace, expressions, elements, attributes and constructs, rendered with recording and identity translations", MODEL + " and the untranslated rendering"),
         "Exhaustive within the bounds; the order of attributes is not compared." + TRUST),
 "C13": (REF % ("templates", "the set of messages looked up over all assignments of outcomes to conditions and loops"),
         "Exhaustive within the bounds; line numbers of messages are not part of the property; relies on lingua's own tokenisation of gettext calls."),
 "C14": ("explicit-state exploration of all histories of loads, renders, file changes, deletions, re-creations, time steps and mid-load changes up to a bound, executed on the real FileLoader under a virtual clock and compared with a model of the file system",
         "Exhaustive over histories up to the bounds in the evidence; changes that keep the modification time and search-path fallback after deletion are excluded (DESIGN.md)."),
 "C15": ("explicit-state exploration of all assignments of files to search paths, orders of adding paths, name forms and load histories up to a bound, executed on the real FileLoader and compared with a lookup model",
         "Exhaustive within the bounds in the evidence."),
 "C16": ("stateless exploration of all thread interleavings with a bounded number of preemptions (lines and bytecodes of the engine) under a controlled scheduler with cooperative locks, each outcome compared with the set of outcomes of all sequential orders",
         "Exhaustive over schedules with one preemption (two for small scenarios) of two or three real threads; scheduling points are Python lines (bytecodes of the loader in one suite), so races inside C extensions or with more preemptions are not covered."),
 "C17": ("explicit-state exploration of all histories of renders (contexts, parts, failures) up to a bound on the real engine, compared with the first rendering and with snapshots of the caller's values",
         "Exhaustive over render histories up to the bounds in the evidence."),
 "C18": (REF % ("fragment sequences, token strings in every expression position, and ill-formed constructs in every layout", "the required outcome: accepted, or rejected with TemplateSyntaxError for the exact file and line"),
         "Exhaustive within the bounds; which expressions are invalid is taken from Python's own compiler."),
 "C19": (REF % ("failing expressions in every position, line layout, host construct and call path between templates", "the marked lines of the sources"),
         "Exhaustive within the bounds in the evidence; failing conversions of finished values to text are outside the property."),
 "C20": (REF % ("templates over the js: constructs, expressions and values, compiled to JavaScript and executed in node", MODEL + " with JavaScript conversions"),
         "Exhaustive within the bounds in the evidence; every case runs the real generated code in the real runtime." + TRUST),
 "C21": (REF % ("override assignments of inheritance chains, rendering orders and output modes, executed in node", MODEL),
         "Exhaustive within the bounds in the evidence: plain, minified and command output are all executed."),
 "C22": (REF % ("nestings and combinations of the constructs, markup and interpolations in Chameleon syntax", "the Tonnikala syntax and " + MODEL),
         "Exhaustive within the bounds in the evidence." + TRUST),
 "C23": ("bounded-exhaustive enumeration of configurations (settings x directives x includes) and of histories of rendering, changing files and waiting, each executed with a real Pyramid Configurator and compared with a reference model of the configuration",
         "Exhaustive within the bounds in the evidence; the clock is virtual. Trusts Pyramid."),
 "C24": ("bounded-exhaustive enumeration of templates and of compile histories, each executed under hash seeds that realise every iteration order of sets of three (thorough: four) names, and compared with each other and with new processes",
         "Exhaustive over the templates, histories and name orders in the evidence; larger sets of names are iterated only in the orders that these seeds happen to give."),
 "C25": ("bounded-exhaustive enumeration of templates (sequences of valid and invalid fragments, nestings, several files) x ways of loading and calling, each executed on the real code and compared with each other",
         "Exhaustive over the templates and ways in the evidence; the oracle is that all ways agree, what the common behaviour must be is decided by the other properties."),
 "C09": (REF % ("sequences of constant and dynamic outputs, and run lengths across the internal limits", MODEL + " and with unoptimised variants of the same template"),
         "Exhaustive within the bounds; run lengths checked at every value up to the stated maximum." + TRUST),
}
REASON = "no check has been built for it yet"
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=i, quick_cmd="bash run.sh %s" % i,
                          thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % i,
                          evidence_file="evidence/%s.json" % i, technique="explicit-state model checking: " + CHECKS[i][0],
                          level="model_checking", level_note=CHECKS[i][1]) for i in ids if i in CHECKS],
             not_applicable=[dict(property=i, reason=REASON) for i in ids if i not in CHECKS])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
