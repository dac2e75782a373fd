#!/usr/bin/env python3
"""Writes /verif/known-findings.json (authoring helper)."""
import json, os, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIXED = [  # (property, start of the commit subject, what failed)
 ("C10", "fix: only check interior cells for validity", "processes of a valid run aborted because corner ghost cells at process boundaries were never filled and looked invalid"),
 ("C05", "fix: scale the net flux by the cell width", "flux differences of all directions were scaled by the x cell width; wrong update on anisotropic grids"),
 ("C08", "fix: name the netcdf dimensions in the order", "netcdf dimensions x and z were swapped, so files of grids with different sizes per direction had the wrong shape"),
 ("C19", "fix: loop over every interior cell in structure", "structure functions skipped interior cells near the upper boundaries"),
 ("C18", "fix: use direction2 for the second offset", "structure_2pt used direction1 for both offsets"),
 ("C18", "fix: accumulate bv_direction", "bv_direction kept only the last sample"),
 ("C19", "fix: apply the weight in the structure", "structure functionals ignored the time weight of time-integrated output"),
 ("C18", "fix: allocate ghost cells for functional", "functional statistics read beyond their buffers for functionals that need ghost cells"),
 ("C19", "fix: place the functional output of each process", "functional output of several processes was written at the wrong position"),
 ("C17", "fix: draw the same parameters for a sample", "parameters of a sample depended on the number of processes the samples were split over"),
 ("C03", "fix: use the left flux in HLL3", "hll3 returned NaN or the wrong state when the left wave speed is zero"),
 ("C16", "fix: rotate the Euler eigenvectors back", "Euler eigenvector matrices for y and z were not rotated back to the original coordinates"),
 ("C03", "fix: compute the logarithmic mean", "logarithmic mean of almost equal states lost all digits"),
 ("C03", "fix: compute all momentum components", "three-dimensional tecno1 flux left a momentum component unset"),
 ("C03", "fix: do not cut off negative values", "Roe flux of the linear equation cut off negative values"),
 ("C11", "fix: reconstruct only the requested region", "reconstruction wrote outside the requested region while another thread exchanged cells"),
 ("C02", "fix: count the ghost cells for fluxes", "too few ghost cells for a wide flux with a reconstruction"),
 ("C09", "fix: reject grids with fewer cells", "grids smaller than the ghost layers were accepted and read out of bounds"),
 ("C22", "fix: average over eight cells", "interpolation in three dimensions divided by the wrong number of cells"),
 ("C11", "fix: ask MPI for the thread support", "MPI was used from a second thread without requesting thread support"),
 ("C07", "fix: save at the end time also", "the last save was missing when the accumulated interval was rounded above the end time"),
 ("C07", "fix: do not step back in time for overlapping", "coarse-graining saves with overlapping windows gave negative time steps"),
 ("C24", "fix: write the initial data parameters", "Python interface dropped initial data parameters"),
 ("C24", "fix: apply every given grid setting", "Python interface ignored grid settings"),
 ("C24", "fix: return the cell midpoints", "Python grid functions returned cell faces instead of midpoints"),
 ("C24", "fix: use the right keys for uq settings", "Python interface wrote uq settings under wrong keys"),
 ("C24", "fix: run the given configuration", "Python interface ran another configuration than the given one"),
 ("C24", "fix: remove the writer node", "removing the writer through the Python interface failed"),
 ("C03", "fix: use the left flux in HLL when", "hll returned NaN when the left wave speed is zero and both are equal"),
 ("C04", "fix: choose the ENO stencil from", "ENO chose its stencil from the wrong divided differences"),
 ("C01", "fix: reconstruct the entropy variables along", "tecno diffusion reconstructed entropy variables along x in all directions and missed the last interface"),
 ("C03", "fix: keep the last component in the six", "six-component stencil lost its last entry: tecno6 and godunov6 used a wrong stencil"),
 ("C02", "fix: use the average flux for almost equal", "scalar tecno flux of nearly equal states was dominated by rounding (order one error for states one ulp apart)"),
 ("C08", "fix: give the MPI parameters to the python", "python and dll writers of several processes were not told their MPI position"),
 ("C08", "fix: call the delete function of a dll", "the delete function of a dll writer was never called, so buffered output of a plug-in was lost"),
 ("C19", "fix: integrate functionals only from", "the first contribution to a time-integrated functional counted the whole time since the start of the run or the previous call, not only the part inside the window"),
 ("C18", "fix: restart the time integration", "time-integrated functional statistics with saves dropped the first contribution of all samples of a process but the first"),
 ("C18", "fix: give each process its own part", "with samples split in space all processes wrote reduced statistics (bv, functionals) to the same place"),
 ("C18", "fix: collect statistics of all samples", "samples reaching a save time up to rounding went into different snapshots: wrong statistics, extra files, or a deadlock with several processes"),
 ("C17", "fix: use the configured bounds", "lower/upper and a/b of uniform distributions were overwritten by 0 and 1"),
 ("C07", "fix: average the solution over the whole", "time-integrated output wrote one file for each step inside the window, each a fraction of the average, instead of the average over the window"),
 ("C07", "fix: take the last snapshot of a time window", "the last snapshot of a time window reaching the end of the run was missing when rounding moved it above the end time"),
 ("C07", "fix: take the coarse graining save at", "the coarse-graining save at the end time was missing when its time was rounded above the end time"),
 ("C15", "fix: let initial data see parameters named", "parameters named like a function of the math module (e, gamma, tau) were hidden from the initial data by 'from math import *'"),
 ("C14", "fix: do not finalize Python after", "valid runs whose scripts import modules with native code (scipy.stats) crashed at exit, after the work was done"),
 ("C14", "fix: reject vectors with fewer", "grid vectors with fewer than three numbers were read beyond their end"),
 ("C14", "fix: accept comments in", "comments in the configuration were taken for elements, so commented valid configurations were refused"),
 ("C14", "fix: report errors in the finalize", "an error in the finalize method of a Python writer ended the run by an abort without an explanation"),
 ("C23", "fix: write well-formed XML reports", "the XML report of a run was never well-formed: tag names and characters XML does not allow"),
 ("C23", "fix: shorten attribute names", "runs in folders with long paths failed on their first NetCDF output: attribute names above the limit of NetCDF"),
 ("C23", "fix: count the time steps of all", "the run report of an uncertainty run counted the time steps of the samples of the first process only"),
 ("C24", "fix: read configurations with comments", "the Python interface refused configurations with comments"),
 ("C24", "fix: find the initial data file", "the Python interface did not find initial data scripts of configurations in another folder"),
 ("C24", "fix: look for the time in", "the Python interface looked for the time below the variable's path instead of the data path"),
 ("C16", "fix: scale the eigenvectors of the Euler", "the diffusion of the Euler equations in two and three dimensions was not scaled like in one: wrong by factors like 1/p, one-dimensional problems gave other results in more dimensions, and runs with a valid Courant number blew up"),
    ("C11", "fix: protect the timer database", "the exchange thread inserted timers into the std::map the computing thread was searching at the same time"),
]
OPEN = []
if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fs, used = [], set()
    for p, sub, what in FIXED:
        h = [l for l in log if l.split(" ", 1)[1].startswith(sub)]
        assert len(h) == 1, (sub, h)
        used.add(h[0]); h = h[0].split()[0]
        fs.append({"property": p, "status": "fixed", "commit": h, "what": what, "entry": "fixed: property=%s %s %s" % (p, h, what)})
    rest = [l for l in log if " fix:" in l and l not in used]
    assert not rest, rest
    for p, match, what in OPEN: fs.append({"property": p, "status": "open", "match": match, "what": what})
    json.dump({"findings": fs}, open(os.path.join(HERE, "known-findings.json"), "w"), indent=1)
    print(len(fs), "findings")
