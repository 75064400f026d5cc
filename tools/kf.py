import json
F=[("R02","549351b","workers kept their own copy of the state and only got the last step's updates: parallel runs differed from serial ones"),
("R04","549351b","the output of a parallel run depended on earlier runs of the pool"),
("H01","c804f4d","steps() left out the last step and yielded the same, later overwritten, object every time"),
("H02","c804f4d","steps() yielded one object that iteration went on changing"),
("A02","c804f4d","analyses that iterate over steps() missed the last step"),
("S01","4afc9b7","batch_update({SITES: ...}) without GENERAL raised KeyError"),
("H03","695f98b","loading a result with {SITES, GENERAL} updates turned them into updates of unknown sites"),
("G03","21c9a56","motifs in Cartesian coordinates were tiled as if fractional"),
("N01","89929f0","displacements that lead to no site broke the graph builder"),
("N01","ffca623","displacements given as lists were not accepted"),
("N03","45f3d6f","the stochastic builder rejected the site_class argument its base class passes on"),
("G05","d689877","distances in skewed periodic lattices were not the shortest image distance"),
("N02","d689877","distance neighborhoods in skewed lattices missed neighbors over the edge"),
("N04","d689877","honeycomb neighbors over the edge were missing"),
("R05","ccb5a98","a rule that answers None everywhere broke the step; parallel merging depended on worker order"),
("R06","c22438e","the default random site was drawn from 0..n, which may be no site"),
("G01","d743b71","points within floating-point noise of the cell edge were wrapped to the far edge"),
("G05","d743b71","wrapping left points on the upper edge of the cell"),
("H02","dec0755","get_step handed out the stored step itself"),
("C01","098f43f","periodicity was lost in conversion to pymatgen"),
("D03","548e7cb","growth runs stopped before the grid was full when nuclei are far apart"),
("G04","0743cee","loading a structure from reordered JSON shuffled site IDs"),
("V01","c746456","rectangular grids were drawn as squares (IndexError or cut off)"),
("V01","1b6fa4c","the palette lists colors twice: few phases already shared a color"),
("H02","d551747","changing nested values of a retrieved step changed the recorded history"),
("R01","2293fef","of updates of different keys of one site by several sites only the last survived"),
("R05","2293fef","as for R01, in the forms that update several sites"),
("R02","fb397fe","a parallel run of a state without sites raised ValueError"),
("G01","de0a5ca","sites at locations that are not multiples of the lookup precision were not found"),
("N01","de0a5ca","displacement neighbors at such locations were not found"),
("G04","d8aa288","a saved and loaded structure did not find sites at irrational locations"),
("D01","2ce5298","random nuclei were shared out unfairly (phases without a nucleus although their share is several)"),
("D03","2ce5298","phases of a grown microstructure were missing for the same reason"),
("A02","dd7edb3","the phases of a result were not analyzed again after it had grown"),
("A01","c9f8a5c","a site without the key matched a search for None"),
("V02","a132cfc","frames were written to the working directory: a user's files were overwritten and, after a failure, frames left behind"),
("V01","9107e8e","an artist without a color map failed instead of drawing black"),
("V02","02fb1fb","later frames with more phases were cut to the height of the first"),
("R04","3c7bc4e","changing nested values of the output state changed the recorded steps"),
("N03","cc01e23","a stochastic neighborhood of site-class neighborhoods could not be built (since an earlier fix)"),
("A01","d1899f2","states whose sites do not record their own ID could not be analyzed (KeyError)"),
("V03","65b1f20","three dimensional grids with different extents could not be drawn (IndexError)"),
("V03","b41bbec","the shell of a three dimensional grid showed one of its faces only"),
("A02","69b643d","plot_phase_counts failed for every result (AttributeError)"),
]
json.dump({"known":[],"fixed":[f"fixed: property={p} {c} {w}" for p,c,w in F]},open('/verif/known_findings.json','w'),indent=1)
