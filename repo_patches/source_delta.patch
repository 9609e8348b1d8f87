From 84abbc314167b8bc8b04aa7e39938c9af545386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 01/31] fix: average writes grid information of the data it
 outputs

The shape, spacing and origin of the input maps were written although the
maps had been cut, combined or supersampled, which made the output fail.
---
 strata/average.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..a9e003e 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -148,9 +148,10 @@ def average(base, output, group=1, rolling=False, **kwargs):
             group_data, info = recenter_maps(group_data, xs_edges)
 
         avg_data = module.average_data(*group_data)
+        info = get_map_info(avg_data, info['spacing'])
 
         if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+            avg_data, info = module.combine_bins(avg_data, info, nx, ny)
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
@@ -165,10 +166,19 @@ def average(base, output, group=1, rolling=False, **kwargs):
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # Maps are written in x-major, y-minor order
+            supersampled_data.sort(coord_labels=('Y', 'X'))
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
             }
+            info = get_map_info(avg_data, supersampled_data.spacing)
+
+        # The written origin is the corner of the first bin, not its center
+        info['origin'] = [
+            x0 - 0.5 * dx for x0, dx in zip(info['origin'], info['spacing'])
+        ]
 
         write(fn_out, avg_data, info)
 
@@ -178,6 +188,26 @@ def average(base, output, group=1, rolling=False, **kwargs):
     progress.finish()
 
 
+def get_map_info(data, spacing):
+    """Return grid information for the data of a map with bin centers as origin."""
+
+    xmin, ymin = np.min(data['X']), np.min(data['Y'])
+    xmax, ymax = np.max(data['X']), np.max(data['Y'])
+    dx, dy = spacing
+
+    shape = [
+        int(round((xmax - xmin) / dx)) + 1,
+        int(round((ymax - ymin) / dy)) + 1
+    ]
+
+    return {
+        'origin': [xmin, ymin],
+        'spacing': [dx, dy],
+        'shape': shape,
+        'num_bins': shape[0] * shape[1]
+    }
+
+
 def recenter_maps(data_maps, recenter_values):
     """Recenter input data around x values and return the intersection."""
 
-- 
2.43.0


From 0b9f7a24325f98da10eb5b754e2b73cee87d4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 02/31] fix: quiet averages do not use the missing progress bar

---
 strata/average.py               | 3 ++-
 strata/contact_line_analysis.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index a9e003e..219b9bb 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -185,7 +185,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def get_map_info(data, spacing):
diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..fc5be76 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -268,6 +268,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From eb91ebd27b85756f89ad0ddc7eebb16791f19b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 03/31] fix: contact line collect outputs maps with their grid
 information

The gmx writer needs the grid information, and x-major data.
---
 strata/contact_line_analysis.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index fc5be76..c2d70e2 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -6,7 +6,7 @@ from droplets.average import average_flow_data, get_combined_grid, transfer_data
 from droplets.contact_line import *
 from droplets.flow import FlowData
 from strata.dataformats.read import read_data_file
-from strata.dataformats.write import write
+from strata.dataformats.write import flowdata_to_dict, write
 from strata.sample_average import sample_value
 from strata.utils import gen_filenames, find_datamap_files, pop_fileopts, prepare_path, write_module_header
 
@@ -69,7 +69,12 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+        info = {
+            'shape': recombined_flow_data.shape,
+            'spacing': recombined_flow_data.spacing,
+            'origin': recombined_flow_data.origin
+        }
+        write(next(fnout), flowdata_to_dict(recombined_flow_data), info)
 
 
 """Fuse the left and right edges in the center."""
@@ -403,9 +408,8 @@ def combine_flow_data(avg_flow, spacing):
         grid['X'] -= 0.5 * dx
         grid['Y'] -= 0.5 * dy
 
-        grid.sort(order=['X', 'Y'])
-
-        return [(l, grid[l]) for l in grid.dtype.names]
+        # Output maps are in x-major, y-minor order
+        return [(l, grid[l].T) for l in grid.dtype.names]
 
     left, right = avg_flow
 
@@ -424,7 +428,14 @@ def combine_flow_data(avg_flow, spacing):
 
     ny, nx = grid.shape
 
-    return FlowData(*combined_data, info={'spacing': spacing, 'shape': (nx, ny)})
+    info = {
+        'spacing': spacing,
+        'shape': (nx, ny),
+        'origin': (grid['X'].min(), grid['Y'].min()),
+        'num_bins': nx * ny
+    }
+
+    return FlowData(*combined_data, info=info)
 
 
 def add_adjusted_flow(bins, direction, info):
-- 
2.43.0


From 32ddd26571df95f4aefec9afc7fe8ac415c79491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 04/31] fix: sampling contact line edges has a defined standard
 deviation

---
 strata/contact_line_analysis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index c2d70e2..6a2e3ca 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -188,17 +188,18 @@ def sample_contact_line_edges(base, labels, save=None,
                     ]
 
                 means = [t[0] for t in means_and_stds]
-                # stds = [t[1] for t in means_and_stds]
+                stds = [t[1] for t in means_and_stds]
 
                 if sum:
                     value = np.sum(means)
                 else:
                     value = np.mean(means)
 
-                # try:
-                    # std = np.mean([t[1] for t in means_and_stds])
-                # except:
-                    # std = None
+                # Some sampled values do not have a standard deviation
+                if None in stds:
+                    std = None
+                else:
+                    std = np.mean(stds)
 
                 samples[j].append([value, std])
             except Exception as exc:
-- 
2.43.0


From 5db3e7ad8a33c2f17fd3c36c0c1979d7d54a4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 05/31] fix: output headers record the used options and columns

The time step was always written as 1, the cut-off radius of collected
spreading data likewise, collected interfaces named their output as the
input file, and multi-label samples had no legend for the deviations.
---
 strata/contact_line_analysis.py | 1 +
 strata/interface/angle.py       | 2 +-
 strata/interface/collect.py     | 2 +-
 strata/interface/sample.py      | 2 +-
 strata/sample_average.py        | 3 ++-
 strata/spreading/collect.py     | 2 +-
 6 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 6a2e3ca..6d8e6b1 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -135,6 +135,7 @@ def sample_contact_line_edges(base, labels, save=None,
 
     def prepare_output(output, labels, cutoff, cutoff_label, average, rolling, header_opts, fopts):
         header_opts.update(fopts)
+        header_opts['dt'] = dt
         write_header(output, base, labels, cutoff, cutoff_label, average, rolling, header_opts)
 
     fopts = pop_fileopts(kwargs)
diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 3b3edc9..bcec824 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -93,7 +93,7 @@ def interface_contact_angle(base, fit=False, height=None, delta_t=1., save_xvg=N
 
     if save_xvg:
         write_angle_data(save_xvg, base, height, times, contact_angles,
-            begin=fopts['begin'], end=fopts['end'])
+            begin=fopts['begin'], end=fopts['end'], delta_t=delta_t)
 
     if kwargs.get('show', True) or kwargs.get('save_fig', None):
         kwargs.setdefault('axis', 'tight')
diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..b85441b 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -66,7 +66,7 @@ def collect_interfaces(base, output, recenter=None, **kwargs):
             flow, label, pbc_info_per_y, yindex_data, recenter, **kwargs
         )
 
-        write_interface_data(fnout, interface, [fnout], kwargs, recenter)
+        write_interface_data(fnout, interface, [fn], kwargs, recenter)
 
         if not quiet:
             progress.update(i + 1)
diff --git a/strata/interface/sample.py b/strata/interface/sample.py
index 45b83ab..a0ce8e2 100644
--- a/strata/interface/sample.py
+++ b/strata/interface/sample.py
@@ -170,7 +170,7 @@ def write_header(output_path, input_base, variable, dt, kwargs):
                 "# Time (ps) %s\n"
                 % (os.path.realpath(input_base), variable,
                     kwargs.get('begin', None), kwargs.get('end', None),
-                    kwargs.get('dt', 1.), ylabel
+                    dt, ylabel
                     ))
 
         fp.write(inputs)
diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..a4eb9e3 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -83,6 +83,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
 
     def prepare_output(output, labels, cutoff, cutoff_label, header_opts, fopts):
         header_opts.update(fopts)
+        header_opts['dt'] = dt
         write_header(output, base, labels, cutoff, cutoff_label, header_opts)
 
     fopts = pop_fileopts(kwargs)
@@ -265,7 +266,7 @@ def write_header(output_path, input_base, labels, cutoff, cutoff_label, kwargs):
                 % (labels, os.path.realpath(input_base),
                     kwargs.get('begin', None), kwargs.get('end', None),
                     kwargs.get('dt', 1.), cutoff,
-                    cutoff_label, ' '.join([l for l in labels]) if len(labels) > 1 else "%s [std]" % labels[0]
+                    cutoff_label, ' '.join(["%s [std]" % l for l in labels])
                 )
         )
 
diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..100a24f 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -364,7 +364,7 @@ def write_header(output_path, input_base, kwargs):
                 % (os.path.realpath(input_base),
                     kwargs.get('begin', None), kwargs.get('end', None),
                     kwargs.get('floor', None), kwargs.get('dt', 1.),
-                    kwargs.get('cutoff', None), kwargs.get('include_radius', 1.),
+                    kwargs.get('cutoff', None), kwargs.get('cutoff_radius', 1.),
                     kwargs.get('cutoff_bins', 1)))
 
         fp.write(header + inputs)
-- 
2.43.0


From 3be4cccdca0a45279ca1e384f24099e604bd9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 06/31] fix: every spreading collection outputs its impact time
 and legend

---
 strata/spreading/collect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 100a24f..30a5154 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -110,6 +110,9 @@ def collect(base, **kwargs):
 
     pbc_info = init_periodic_info()
 
+    # The column header is output once for every collection
+    write_spreading.impact = False
+
     for i, (data, info, meta) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
         left, right = get_spreading_edges(flow, 'M', cutoff_radius,
-- 
2.43.0


From 4d5a159eabc837310765be7025d67c31be77eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 07/31] fix: averaged interfaces can be written to disk

---
 strata/interface/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/interface/view.py b/strata/interface/view.py
index 60f2f82..58182ad 100644
--- a/strata/interface/view.py
+++ b/strata/interface/view.py
@@ -82,7 +82,8 @@ def view_interfaces(base, average=1, save_xvg='', **kwargs):
             continue
 
         if save_xvg != '':
-            write_interface_data(fnout, interface, fngroup, kwargs)
+            coords = {'X': interface.values, 'Y': interface.index.values}
+            write_interface_data(fnout, coords, fngroup, kwargs)
 
         if save_fig != None:
             kwargs['save_fig'] = next(fnfig)
-- 
2.43.0


From fdb2e241e58f6bf2e04414dfbc086ce74fa082b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 08/31] fix: interface collect does not unpack a missing return
 value

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From f9f5dfe26a99cae686a28a9f295f871a56b0b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 09/31] fix: the contact_line command keeps its name with newer
 click versions

---
 strata/strata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/strata.py b/strata/strata.py
index 7be1845..c792520 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -656,8 +656,8 @@ def interface_angle_cli(base, **kwargs):
     interface_contact_angle(base, **kwargs)
 
 # Contact line averaging wrapper
-@strata.group()
-def contact_line(name=cmd_contactline['name'], short_help=cmd_contactline['desc']):
+@strata.group(name=cmd_contactline['name'], short_help=cmd_contactline['desc'])
+def contact_line():
     """Analyze the contact line bins."""
     pass
 
-- 
2.43.0


From d5a90215dfe145d7e6846f476b0ce7caaf16fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 10/31] fix: spreading graphs do not use removed matplotlib
 functions

Also do not require the optional save_xvg argument.
---
 strata/spreading/fit.py  | 1 -
 strata/spreading/view.py | 3 +--
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 13663dc..cdcdf5a 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -170,7 +170,6 @@ def plot_fitting_data(fit_data, data, **kwargs):
 
     """
 
-    plt.hold(True)
     for s_fit, s_data in zip(fit_data, data):
         fit_label = s_fit.name.strip(s_data.name).strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cde7325..cc0d04f 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -50,7 +50,7 @@ def view_spreading(files, **kwargs):
             tau=kwargs.pop('tau', 1.), R=kwargs.pop('R', 1.)
             )
 
-    save_path = kwargs.pop('save_xvg')
+    save_path = kwargs.pop('save_xvg', None)
     if save_path:
         try:
             write_spreading_data(save_path, synced_data)
@@ -349,6 +349,5 @@ def plot_spreading_data(all_series, **kwargs):
 
     """
 
-    plt.hold(True)
     for s in all_series:
         plt.plot(s.index, s.values, **kwargs)
-- 
2.43.0


From 6fc8976e519694394449b8a8ef28bd4d9562556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 11/31] fix: density gradients use the spacing of their own
 axis

---
 strata/view_flowmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..aa9599e 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -416,14 +416,14 @@ def add_density_gradient(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    (dx, dy) = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -447,14 +447,14 @@ def add_evaporation(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    (dx, dy) = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From c7bf73ec2488903c11724b51711d04a5319092a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 12/31] fix: viscous dissipation maps can be drawn for several
 files

---
 strata/view_flowmap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index aa9599e..7beea64 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -265,12 +265,14 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
             flow.data = add_absolute_flow(flow.data)
 
         if label == 'visc_diss':
-            label = 'visc'
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
             add_evaporation(flow)
 
+        # The field is added to the data with a shorter name
+        field = 'visc' if label == 'visc_diss' else label
+
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
@@ -278,9 +280,9 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-            print_average_value(flow.data, label, kwargs)
+            print_average_value(flow.data, field, kwargs)
 
-        func(flow.data, info, label, **kwargs)
+        func(flow.data, info, field, **kwargs)
         plt.clf()
 
 
-- 
2.43.0


From a8db31fef08936cdad4e5fa54873ab643def6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 13/31] fix: the default type of flow map views exists

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 7beea64..32ff586 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -219,7 +219,7 @@ def plot_quiver(xs, ys, us, vs, weights, pivot, vlim, **kwargs):
 
     return fig
 
-def view_flowmap_2d(*files, label='M', type='heightmap',
+def view_flowmap_2d(*files, label='M', type='height',
         cutoff_label='M', cutoff=None,
         **kwargs):
     """View bin data of input files.
-- 
2.43.0


From 75ec061a3212e08115a7a0a70c3326490d07a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 14/31] fix: bins with flow along a single axis are drawn

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 32ff586..0d285d2 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From 305048ef2d148d5ddfd8472f0e3b2f763a204422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 15/31] fix: stream lines use the given limits, labels and the
 number of bins

A limit of 0 was ignored, a missing cut-off or colour label failed, and the
number of bins along each axis was one too many.
---
 strata/view_flowmap.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 0d285d2..359c2ae 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -82,22 +82,28 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     x0, y0 = flow.origin
     dx, dy = flow.spacing
 
-    data = flow.data
-
     cutoff_label, cutoff_value = clim
 
     xlabel, ylabel = coord_labels
+
+    # The data is reshaped from x-major, y-minor order below
+    flow.sort(coord_labels=(ylabel, xlabel))
+    data = flow.data
+
     xmin, xmax = xlim
     ymin, ymax = ylim
 
-    mask = (data[cutoff_label] < cutoff_value)
+    if cutoff_label != None and cutoff_value != None:
+        mask = (data[cutoff_label] < cutoff_value)
+    else:
+        mask = np.zeros(data.shape, dtype=bool)
 
     data = np.ma.array(data, mask=mask)
 
-    x0 = max(data['X'].min(), xmin if xmin else -np.inf)
-    x1 = min(data['X'].max(), xmax if xmax else np.inf)
-    y0 = max(data['Y'].min(), ymin if ymin else -np.inf)
-    y1 = min(data['Y'].max(), ymax if ymax else np.inf)
+    x0 = max(data[xlabel].min(), xmin if xmin != None else -np.inf)
+    x1 = min(data[xlabel].max(), xmax if xmax != None else np.inf)
+    y0 = max(data[ylabel].min(), ymin if ymin != None else -np.inf)
+    y1 = min(data[ylabel].max(), ymax if ymax != None else np.inf)
 
     inds = (data[xlabel] >= x0) \
         & (data[xlabel] <= x1) \
@@ -111,18 +117,21 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     y0 = data[ylabel].min()
     y1 = data[ylabel].max()
 
-    nx = int((x1 - x0) / dx) + 2
-    ny = int((y1 - y0) / dy) + 2
+    nx = int(round((x1 - x0) / dx)) + 1
+    ny = int(round((y1 - y0) / dy)) + 1
 
     data = data.reshape(nx, ny).transpose()
 
     x = x0 + np.arange(nx) * dx
     y = y0 + np.arange(ny) * dy
 
-    u = data['U']
-    v = data['V']
+    u, v = (data[label] for label in labels)
+
+    if colour in data.dtype.names:
+        weights = data[colour]
+    else:
+        weights = np.ones(data.shape)
 
-    weights = data[colour]
     line_weights = data['M']
 
     return x, y, u, v, weights, line_weights
-- 
2.43.0


From 4e0b5cbbd0cc44543df3973b93419f5bfcf7e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 16/31] fix: all offered labels can be selected in views

The choice 'None' was used as the name of a field, and derived fields were
not added when selected for the cut-off.
---
 strata/strata.py       | 4 ++++
 strata/view_flowmap.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/strata/strata.py b/strata/strata.py
index c792520..392c757 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -914,6 +914,8 @@ def view_heightmap_cli(files, **kwargs):
 
     noaxis = not kwargs.pop('drawaxes')
     kwargs['noaxis'] = noaxis
+    if kwargs['cutoff_label'] == 'None':
+        kwargs['cutoff_label'] = None
     view_flowmap_2d(*files, type='height', **kwargs)
 
 
@@ -974,6 +976,8 @@ def view_quiver_cli(files, **kwargs):
 
     """
 
+    if kwargs['colour'] == 'None':
+        kwargs['colour'] = None
     view_flowfields(*files, cutoff_label='M', **kwargs)
 
 
diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 359c2ae..f1baae3 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -270,10 +270,10 @@ def view_flowmap_2d(*files, label='M', type='height',
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
-        if label == 'flow':
+        if 'flow' in (label, cutoff_label):
             flow.data = add_absolute_flow(flow.data)
 
-        if label == 'visc_diss':
+        if label == 'visc_diss' or cutoff_label == 'visc':
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
-- 
2.43.0


From 02283d4e2bc50d57abc9991d1df2f3e5aed08b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 17/31] fix: figures of spreading fits are saved without being
 shown

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index cdcdf5a..6d47e26 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -49,7 +49,7 @@ def fit_spreading_data(files, lims=(None, None), save_xvg=None,
     if save_xvg != None:
         write_fitting_data(save_xvg, fit_data, lims, out_lims)
 
-    if kwargs.get('show', True):
+    if kwargs.get('show', True) or kwargs.get('save_fig', None) != None:
         plot_fitting_data(fit_data, data, **kwargs)
 
     return fit_params
-- 
2.43.0


From 91e31463b4f7748d8e7d561a5ffe456d0b031888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 18/31] fix: samples per angle include all directions

Bins on the negative x axis were sampled at 0 degrees, a bin at the origin
gave invalid values and the last angular interval excluded its interior.
---
 droplets/sample.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..dd1e2d1 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -64,12 +64,11 @@ def sample_per_angle_from(flow, origin, label,
     inds_rlim = (drs >= rmin) & (drs <= rmax)
     data_rlim = flow.data[inds_rlim]
 
-    bin_rads = np.sign(dys[inds_rlim]) \
-        * np.arccos(dxs[inds_rlim]/drs[inds_rlim])
+    bin_rads = np.arctan2(dys[inds_rlim], dxs[inds_rlim])
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax)
+    inds_alim = (bin_degrees >= amin) & (bin_degrees < amax + size)
     data_alim = data_rlim[inds_alim]
     label_data = data_alim[label]
 
-- 
2.43.0


From 2345d077cd3f145580f384dda517a71c831c2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 19/31] fix: sampled slip lengths do not depend on the other
 labels

Sampling the viscous dissipation sorts the bins, which was seen when
sampling later labels.
---
 strata/sample_average.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index a4eb9e3..3a10e26 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -123,7 +123,10 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
                 if label == 'slip_length':
                     value, std = sample_slip_length(flow, floor=slip_floor)
                 else:
-                    value, std = sample_value(flow, label, cutoff, cutoff_label, sum, viscosity)
+                    # Sampling may sort the data, the original order is needed
+                    # for other labels
+                    value, std = sample_value(flow.copy(), label, cutoff,
+                        cutoff_label, sum, viscosity)
 
                 sampled_values[j].append(value)
                 sampled_stds[j].append(std)
-- 
2.43.0


From 0b2888e568afbfc61d328442d71a2741e953b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 20/31] fix: headers of short data map files are read to their
 end

---
 strata/dataformats/gmx_flow_version_1/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..86118d1 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -75,11 +75,14 @@ def read_header(fp):
         while True:
             buf = fp.read(buf_size)
 
+            if not buf:
+                raise ValueError("The header has no end.")
+
             pos = buf.find(b'\0')
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 73d6d2de2f634985a106f78b486978e4b5bc56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 21/31] fix: the default radius of interface searches is the
 smallest bin spacing

---
 droplets/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..e788082 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -182,7 +182,7 @@ def get_interface(flow, label, **kwargs):
         if radius == None:
             xdiff = np.diff(np.unique(data[xlabel]))
             ydiff = np.diff(np.unique(data[ylabel]))
-            radius = next(np.min(map(np.min, (xdiff, ydiff))))
+            radius = min(np.min(d) for d in (xdiff, ydiff) if d.size > 0)
 
         return radius
 
-- 
2.43.0


From cb974e0348adc49a46e42237efc2e2a5371fc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 22/31] fix: contact angles of droplets without an upper layer
 are not found

---
 droplets/interface.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index e788082..975ab31 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -76,13 +76,19 @@ def get_contact_angle(flow, height, label, **kwargs):
     kwargs['ylims'] = (yfloor, None)
 
     interface = get_interface(flow, label, **kwargs)
-    indices = next(interface)
+    indices = next(interface, None)
+
+    if indices is None:
+        return None, None
+
     ymin, xedges = get_coords(flow, indices)
 
     # Break if a floor was specified and no cells are found in that layer
     if floor != None and ymin != yfloor:
         return None, None
 
+    angles = (None, None)
+
     for indices in interface:
         y, xs = get_coords(flow, indices)
         dy = y - ymin
-- 
2.43.0


From f73fc86939d4b0536205993d6b36e6d8bae2dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 23/31] fix: the shape of contact line areas is counted with
 the spacing of its own axis

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 6d8e6b1..1a68924 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -453,7 +453,7 @@ def add_adjusted_flow(bins, direction, info):
         y0 = ys[0]
         nx = 1
 
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
+        while nx < ys.size and ys[nx] < y0 + 0.5 * dy:
             nx += 1
 
         ny = data.size // nx
-- 
2.43.0


From 206ccf6c872f52911eae3ab54852f848c0d4ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 24/31] fix: droplets do not depend on strata

---
 droplets/average.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/droplets/average.py b/droplets/average.py
index a3d8a27..31ad87b 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -1,6 +1,5 @@
 import numpy as np
 from droplets.flow import FlowData
-from strata.dataformats.write import write
 
 
 """Module for averaging FlowData objects."""
-- 
2.43.0


From 19d889d4ef6e498ae7f4bb9a2a1a84b80f1f07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 25/31] fix: writing simple data maps does not change the order
 of the data

---
 strata/dataformats/simple/write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/write.py b/strata/dataformats/simple/write.py
index 1135f33..660f3b6 100644
--- a/strata/dataformats/simple/write.py
+++ b/strata/dataformats/simple/write.py
@@ -31,7 +31,7 @@ def write_data(path, data, binary=True):
 
     btype = 'float32'
     if type(data) == np.ndarray:
-        data.sort(order=['X', 'Y'])
+        data = np.sort(data, order=['X', 'Y'])
 
     try:
         save_data = np.array([data[l] for l in fields_ordered], dtype=btype).T
-- 
2.43.0


From 3d6fa947c7ac8be2c4031b3aa2233be6847046bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 26/31] fix: contours are drawn for data of any order

---
 strata/view_flowmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index f1baae3..7283cec 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -338,12 +338,17 @@ def contour(data, info, label, **kwargs):
     colors = kwargs.get('contour_colours', None)
     filled = kwargs.get('filled', False)
 
+    xlabel, ylabel = kwargs['coord_labels']
+
+    # The data is reshaped from x-major, y-minor order below
+    data = data[np.lexsort((data[ylabel], data[xlabel]))]
+
     vmin, vmax = (float(v) if v != None else v for v in kwargs['vlim'])
     if (vmin != None or vmax != None) and levels == None:
         data[label] = data[label].clip(vmin, vmax)
 
     grid_data = data.reshape(info['shape'])
-    xs, ys = (grid_data[l] for l in kwargs['coord_labels'])
+    xs, ys = (grid_data[l] for l in (xlabel, ylabel))
     cs = grid_data[label]
 
     fig, ax = create_figure(**kwargs)
-- 
2.43.0


From 936480947b4d6b8f13ed2a9d47005c66bf064402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 27/31] fix: simple maps with one row or column are read with
 finite coordinates

---
 strata/dataformats/simple/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..83e06b9 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -99,11 +99,11 @@ def calc_information(X, Y):
             x0 = np.min(xs)
             x1 = np.max(xs)
 
-            try:
-                return (x1 - x0) / (n - 1)
-            except:
+            if n < 2:
                 return 0.0
 
+            return (x1 - x0) / (n - 1)
+
         dx = calc_1d(X, nx)
         dy = calc_1d(Y, ny)
 
-- 
2.43.0


From 17c67e268cfbb8b0d6f6a75baaa486e29e120d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 28/31] fix: headers of tables needed the command line module
 to be imported already

---
 strata/interface/angle.py | 4 ++--
 strata/spreading/fit.py   | 4 ++--
 strata/utils.py           | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index bcec824..5900e59 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -139,7 +139,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
     """
 
     def get_header(path, base, height, **kwargs):
-        import strata
+        from strata.strata import version
         import time
 
         time_str = time.strftime('%c', time.localtime())
@@ -151,7 +151,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
                 "# Creation date: %s\n"
                 "# Using module version: %s\n"
                 "# \n"
-                % (__name__, time_str, strata.strata.version))
+                % (__name__, time_str, version))
 
         inputs = (
                 "# Input:\n"
diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 6d47e26..315530a 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -191,7 +191,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
     """
 
     def write_header(path, all_series):
-        import strata
+        from strata.strata import version
         import time
 
         with open(path, 'w') as fp:
@@ -204,7 +204,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
                     "# Creation date: %s\n"
                     "# Using module version: %s\n"
                     "# \n"
-                    % (__name__, time_str, strata.strata.version))
+                    % (__name__, time_str, version))
 
             inputs = (
                     "# Input:\n"
diff --git a/strata/utils.py b/strata/utils.py
index 40373f2..e193afd 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -423,8 +423,8 @@ def write_module_header(file, module, title):
     """Write a module creation header with title to input file."""
 
     import inspect
-    import strata
     import time
+    from strata.strata import version
 
     time_str = time.strftime('%c', time.localtime())
     header = (
@@ -434,7 +434,7 @@ def write_module_header(file, module, title):
             "# Creation date: %s\n"
             "# Using module version: %s\n"
             "# \n"
-            % (title, module, time_str, strata.strata.version))
+            % (title, module, time_str, version))
 
     with open(file, 'w') as fp:
         fp.write(header)
-- 
2.43.0


From d69d44c04eb3f42a06a9fa46d346cb3a61200717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 29/31] fix: average empty flow maps as empty bins

The default of average_flow_data is to include empty data sets as empty
bins, but their coordinates have no minimum to project them from.
---
 droplets/average.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index 31ad87b..b52ac64 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -201,6 +201,10 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     xl, yl = coord_labels
     projected_data = grid.copy()
 
+    # An empty data set leaves all bins empty
+    if data.size == 0:
+        return projected_data.ravel()
+
     dx, dy = spacing
     nx, ny = shape
 
-- 
2.43.0


From 24064bb46c0760a6c29ae73e357da877e9161273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 30/31] fix: --noaxis was overridden in the height map view

---
 strata/strata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/strata.py b/strata/strata.py
index 392c757..3725082 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -912,8 +912,8 @@ def view_heightmap_cli(files, **kwargs):
 
     """
 
-    noaxis = not kwargs.pop('drawaxes')
-    kwargs['noaxis'] = noaxis
+    drawaxes = kwargs.pop('drawaxes')
+    kwargs['noaxis'] = kwargs['noaxis'] or not drawaxes
     if kwargs['cutoff_label'] == 'None':
         kwargs['cutoff_label'] = None
     view_flowmap_2d(*files, type='height', **kwargs)
-- 
2.43.0


From 8b830e2cd5e3f02d353178932dcc35880528185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:29 +0000
Subject: [PATCH 31/31] fix: simple maps whose first values are valid text were
 not read as binary

---
 strata/dataformats/simple/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 83e06b9..7a5fed7 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,8 +28,7 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    fp.read(checksize)
-                    return False
+                    return '\0' in fp.read(checksize)
                 except UnicodeDecodeError:
                     return True
 
-- 
2.43.0

