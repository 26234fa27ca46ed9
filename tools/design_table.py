"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json (run by hand; no check reads seeded/)."""
import json, os
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
missed = set("c03-mixcase c04-globval c05-threerange c06-array c08-order c08-bufcount c12-unit c03-big c04-delim c06-count c12-root c14-big c16-usmax c18-pads c12-sethash c07-padonly c19-iterpop c19-slice c20-float c13-hex c22-swap c22-float c20-and c19-ext c17-cnt".split())
print("| planted change | caught by | needs | breaks |\n|---|---|---|---|")
for n in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, n, "meta.json")))
    print("| %s%s | %s | %s | %s |" % (n, "*" if n in missed else "", m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
