"""C27: the Python package behaves as the documented object model says. See DESIGN.md."""
import gc, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "py"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
import c27_core, c27_geometry, c27_rules, c27_routing, c27_scripts

RULE = ("primitives: a random history of calls on points, line strings, polygons, lanelets and areas, each handle compared with a Python model "
        "after every step. maps, regelems: maps, submaps and regulatory elements likewise. rules, files: traffic rules, projectors, reading and "
        "writing. metrics, rectangles: geometry functions against plain formulas. graph, route, exports: routing on a grid of lanes against a "
        "model of its edges, with cost classes written in Python. matching: objects on that grid. Non-trivial: see each sub-check.")
ASSUME = ["line strings and layers are not modified while an iterator over them is in use",
          "attribute maps of const objects are shared with the mutable objects and can be edited",
          "numbers are multiples of 1/2 where text output is compared, because repr prints six digits"]

props = c27_core.PROPS + c27_rules.PROPS + c27_geometry.PROPS + c27_routing.PROPS + c27_scripts.PROPS
sys.exit(pbt.main("C27", RULE, ASSUME, props,
                  c27_core.KNOWN + c27_rules.KNOWN + c27_geometry.KNOWN + c27_routing.KNOWN + c27_scripts.KNOWN))
