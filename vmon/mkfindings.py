"""Write known_findings.json from the fix: commits in /repo and the open findings below.

Run by hand after a commit in /repo; no check calls it.
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

OPEN = [
    dict(property='C23', mech='phi-from-z-axis',
         what='GratingArrayStructure: phi is documented to be counterclockwise from the positive y axis, but an element asked for at phi '
              'sits at y = r sin(phi), z = r cos(phi), i.e. phi counts clockwise from the positive z axis',
         where='marxs/design/rowland.py:GratingArrayStructure.elemposyz',
         why_not_fixed='every existing instrument definition and some tests (test_resolvingpower_consistency) place gratings with the '
                       'convention in the code'),
    dict(property='C30', mech='sky-roll',
         what='ACIS sky coordinates of an off-axis source are turned by twice the roll angle about the pointing direction if the roll is not 0: pointings '
              'count the roll from North to East (as documented), ACISChip (and the aspect solution of MARX and CIAO) from North to West',
         where='marxs/missions/chandra/det_acis.py:ACISChip.specific_process_photons and marxs/source/pointing.py:FixedPointing, '
               'marxs/missions/chandra/dither.py:LissajousDither.photons_dir',
         why_not_fixed='needs a decision about the convention: the roll of pointings is documented as N -> E, and test_detector_coordsystems pins the '
                       'sky coordinates to numbers from CIAO'),
    dict(property='C31', mech='color-hex-fraction',
         what='color_tuple_to_hex of a color with float channels adds the fractional parts of one channel (in units of 1/255) to the next, e.g. (0, .5, 0) '
              'becomes 0x007f80 which is a shade of blue-green',
         where='marxs/visualization/utils.py:color_tuple_to_hex',
         why_not_fixed='test_threejsjson pins wrong colors (#00bfff for (0, .75, .75) and #ff4ccc for (1, .3, .3))'),
    dict(property='C31', mech='json-torus-axis',
         what='threejsjson draws a RowlandTorus with the z-axis as axis of symmetry instead of the y-axis (threejs swaps the axes)',
         where='marxs/visualization/threejsjson.py:torus',
         why_not_fixed='test_threejsjson pins the pose in the output to that of the torus'),
]

# start of the subject of a fix commit -> property
PROPERTY = [
    ('RegularGrid of Arcus', 'C34'),
    ('CCDRedistNormal redraws', 'C03'), ('L2 bars at steep', 'C04'), ('LabPointSourceCone', 'C18'), ('elements_of_class', 'C06'),
    ('Parallel.move_center', 'C07'), ('surface normal of cylinders', 'C01'), ('order selectors tolerate', 'C09'),
    ('CCDRedistNormal does not', 'C10'), ('apertures do not write', 'C11'), ('mirror coating of PerfectLensSegment', 'C12'),
    ('MetaShellAperture records', 'C12'), ('PerfectLens gives', 'C12'), ('scatter works', 'C13'), ('polarization behind', 'C14'),
    ('mirrors at normal', 'C14'), ('poisson_process', 'C15'), ('RandomArbitraryPdf', 'C19'), ('find_best_detector_position', 'C25'),
    ('radial distances', 'C16'), ('SymbolFSource', 'C16'), ('LissajousDither', 'C17'), ('pointing', 'C17'), ('JitterPointing', 'C17'),
    ('FarLabPointSource', 'C18'), ('Q_reflection', 'C20'), ('parallel_transport', 'C20'), ('h2e', 'C21'), ('angle_line_plane', 'C21'),
    ('torus parameters', 'C22'), ('RowlandTorus.xyzw2', 'C22'), ('normals of a Rowland', 'C22'), ('GratingArrayStructure accepts', 'C23'),
    ('RectangularGrid places', 'C23'), ('RowlandTorus.xyz_from', 'C22'), ('elements in a Circular', 'C23'), ('elements on an arc', 'C23'),
    ('add_offset_double', 'C22'), ('hole of a Circular', 'C23'), ('sub-apertures close', 'C25'), ('resolving power is', 'C25'), ('facet_table', 'C25'),
    ('average resolving power', 'C25'), ('run_tolerances_for_energies2', 'C24'), ('load_and_plot', 'C24'),
    ('RMF.rmf and', 'C26'), ('RMFs with a single', 'C26'), ('DETCHANS', 'C26'), ('RMF rows can', 'C26'), ('RMF.from_Gauss', 'C26'), ('ARF columns', 'C26'),
    ('OSIPBase', 'C27'), ('CCDRedistNormal.cdf', 'C27'), ('ColOrKeyTable drops', 'C26'), ('OSIPs can be plotted', 'C27'), ('OSIP summary', 'C27'),
    ('x3d', 'C31'), ('plotting', 'C31'), ('threejsjson', 'C31'), ('three.js', 'C31'), ('FlatAperture.outer', 'C31'), ('plots show', 'C31'), ('triangles of', 'C31'),
    ('boom rods', 'C34'), ('combine_disjoint', 'C31'), ('TagVersion', 'C32'), ('Arcus photon lists without', 'C32'),
    ('place elements on the Rowland torus', 'C23'), ('columns described by a dict', 'C33'), ('elements do not share pose', 'C33'),
    ('moveelem moves all layers', 'C24'), ('Lynx instrument can', 'C34'), ('chirp of Lynx', 'C35'), ('building a Lynx grating', 'C34'),
    ('unknown boom', 'C34'), ('AXIS imaging', 'C34'),
    ('gratings that are not in a FlatStack', 'C35'), ('NumericalChirpFinder', 'C35'), ('chirp of bent', 'C35'), ('order selector set after', 'C35'),
    ('Arcus grid analysis', 'C36'), ('sort_columns', 'C30'), ('DetOffsetY', 'C30'), ('tg_resolve', 'C36'),
    ('efficiency of Lynx', 'C34'), ('distance to the center', 'C35'),
    ('LSFPARM', 'C28'), ('L2 bars', 'C29'), ('ACIS keeps', 'C30'), ('Chandra adds', 'C30'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'],
                         capture_output=True, text=True, check=True).stdout.splitlines()
    fixed = []
    for line in log:
        h, _, subject = line.partition(' ')
        what = subject.removeprefix('fix:').strip()
        prop = [p for s, p in PROPERTY if what.startswith(s)]
        if not prop:
            sys.exit('no property for: ' + line)
        fixed.append(f'fixed: property={prop[0]} {h} {what}')
    with open(os.path.join(VERIF, 'known_findings.json'), 'w') as f:
        json.dump({'findings': [dict(d, status='open') for d in OPEN], 'fixed': fixed}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
