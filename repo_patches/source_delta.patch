From 0e700ede20af9f1362f7879a98dbdf5796dd1273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 01/43] fix: mark the MPs of the uniform initial distribution
 as never impacted

add_uniform_MP_distrib advanced N_mp before writing t_last_impact, so the -1 went to the slots after the new MPs,
which kept the impact time of the MPs that had used these slots before.
---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..0ccda37 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -480,11 +480,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From 1080e3fd99ee49ccff34818437dd199bcaf1e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 02/43] fix: init_from_dict drops the charge of the MPs it
 replaces

nel_mp is zero beyond N_mp everywhere else and the regenerations sum the whole array, so the charge of the MPs beyond
the loaded ones came back in the next soft or full regeneration.
---
 MP_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MP_system.py b/MP_system.py
index 0ccda37..4f5f10a 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -592,4 +592,5 @@ class MP_system:
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        self.nel_mp[:] = 0.
         self.add_from_file(dict_MP)
-- 
2.43.0


From 30c823a93846ee6a264fdd3935f511f9fc62dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 03/43] fix: multi-cloud density movies are written next to,
 not beside, the output folder

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..5856831 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1057,7 +1057,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1070,7 +1070,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 2fd118e0aee23cf87a576bb69f60f7e6c2001532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 04/43] fix: the last sample of the electron density probes is
 part of the output

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5856831..9f3fff1 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -894,7 +894,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From 62c07b74903eb99522a100322c3589e19e736e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 05/43] fix: a simulation killed while writing files can be
 restarted

Checkpoints, main output and its safety copy are replaced only when the
new file is complete; an older checkpoint left behind by an interruption
is ignored at restart and removed at the next checkpoint; checkpoint
folders given without trailing slash are found at restart.
---
 buildup_simulation.py | 20 ++++++++++----------
 pyecloud_saver.py     | 44 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..cb3bf56 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -54,6 +54,7 @@
 
 
 from . import init as init
+from .pyecloud_saver import list_checkpoints
 import pickle
 import numpy as np
 import os
@@ -113,20 +114,17 @@ class BuildupSimulation(object):
         # Checking if there are saved checkpoints
         if self.checkpoint_folder is not None:
             if os.path.isdir(self.checkpoint_folder):
-                if len(os.listdir(self.checkpoint_folder)) == 1:
+                checkpoints = list_checkpoints(self.checkpoint_folder)
+                if len(checkpoints) > 0:
                     print("Loading from checkpoint...")
-                    # Selecting latest checkpoint
-                    checkpoint = os.listdir(self.checkpoint_folder)[0]
+                    # Selecting latest checkpoint (there is an older one if the
+                    # simulation was interrupted before it could be removed)
                     self.load_checkpoint(
-                        filename_simulation_checkpoint=checkpoint,
+                        filename_simulation_checkpoint=checkpoints[-1],
                         load_from_folder=self.checkpoint_folder,
                     )
-                elif len(os.listdir(self.checkpoint_folder)) == 0:
-                    print("No checkpoint found, starting new simulation...")
                 else:
-                    raise ValueError(
-                        "More than one checkpoint found in %s" % self.checkpoint_folder
-                    )
+                    print("No checkpoint found, starting new simulation...")
 
     def run(self, t_end_sim=None):
 
@@ -481,7 +479,9 @@ class BuildupSimulation(object):
         load_from_folder="./",
     ):  # , reset_pyeclsaver = True):
 
-        with open(load_from_folder + filename_simulation_state, "rb") as fid:
+        with open(
+            os.path.join(load_from_folder, filename_simulation_state), "rb"
+        ) as fid:
             dict_state = pickle.load(fid)
 
         self.beamtim = dict_state["beamtim"]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 9f3fff1..820b835 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -54,6 +54,7 @@
 import scipy.io as sio
 import numpy as np
 import os
+import re
 import subprocess
 from . import hist_for as histf
 import time
@@ -68,6 +69,16 @@ except ImportError:
     import pickle
 
 
+def list_checkpoints(checkpoint_folder):
+    '''Names of the complete checkpoints in the folder, oldest first.'''
+    i_checkps = []
+    for fname in os.listdir(checkpoint_folder):
+        match = re.match(r'^simulation_checkpoint_(\d+)\.pkl$', fname)
+        if match:
+            i_checkps.append(int(match.group(1)))
+    return ['simulation_checkpoint_%d.pkl'%ii for ii in sorted(i_checkps)]
+
+
 class pyecloud_saver:
 
     def __init__(self, logfile_path):
@@ -308,7 +319,7 @@ class pyecloud_saver:
             self.area = impact_man.chamb.area
 
             if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
-                sio.savemat(self.filen_main_outp, self.build_outp_dict(buildup_sim), oned_as='row')
+                self._main_outp_save(buildup_sim)
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
@@ -507,6 +518,14 @@ class pyecloud_saver:
 
         return saved_dict
 
+    def _main_outp_save(self, buildup_sim):
+        # The previous file is replaced only once the new one is complete
+        outpath = self.filen_main_outp
+        if not outpath.endswith('.mat'):
+            outpath += '.mat'
+        sio.savemat(outpath + '.tmp', self.build_outp_dict(buildup_sim), oned_as='row', appendmat=False)
+        os.replace(outpath + '.tmp', outpath)
+
     def _checkpoint_init(self, checkpoint_DT, checkpoint_folder):
         # Simulation state saver init
         if checkpoint_DT is None:
@@ -530,24 +549,29 @@ class pyecloud_saver:
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
 
-                outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+                fname_checkp = 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+                outpath = os.path.join(self.checkpoint_folder, fname_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                                             sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-                if self.i_checkp > 0:
-                    if self.flag_last_cloud:
-                        prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
-                        os.remove(prevpath)
-                        print('Removed simulation checkpoint in: ' + prevpath)
+                if self.flag_last_cloud:
+                    for fname in list_checkpoints(self.checkpoint_folder):
+                        if fname != fname_checkp:
+                            prevpath = os.path.join(self.checkpoint_folder, fname)
+                            os.remove(prevpath)
+                            print('Removed simulation checkpoint in: ' + prevpath)
 
                 self.i_checkp += 1
                 self.t_last_checkp = beamtim.tt_curr
 
     def _copy_main_outp_to_safety(self, outpath, beamtim):
-        shutil.copy(self.filen_main_outp, outpath)
+        # The previous copy is replaced only once the new one is complete
+        destpath = os.path.join(outpath, os.path.basename(self.filen_main_outp))
+        shutil.copy(self.filen_main_outp, destpath + '.tmp')
+        os.replace(destpath + '.tmp', destpath)
         self.t_last_copy = beamtim.tt_curr
 
     def _copy_main_outp_init(self, copy_main_outp_DT, copy_main_outp_folder):
@@ -991,9 +1015,11 @@ class pyecloud_saver:
             if self.flag_lifetime_hist:
                 dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
-            with open(outfile, 'wb') as fid:
+            # a file with the final name is always complete
+            with open(outfile + '.tmp', 'wb') as fid:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
+            os.replace(outfile + '.tmp', outfile)
 
             # put back savers
             for cloud, saver in zip(cloud_list, temp_saver_list):
-- 
2.43.0


From 81bcbc88b3e6bc6d411a9f074a60f32181ce78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 06/43] fix: a checkpoint always comes with the output recorded
 up to it

With save_mat_every > 1 the main output could be older than the
checkpoint (or not exist yet); the safety copy was made after the
checkpoint.
---
 pyecloud_saver.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 820b835..1763627 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -318,7 +318,8 @@ class pyecloud_saver:
             self.b_spac = beamtim.b_spac
             self.area = impact_man.chamb.area
 
-            if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
+            # A restart from a checkpoint needs the output recorded up to the checkpoint
+            if (beamtim.pass_numb + 1) % self.save_mat_every == 0 or self._checkpoint_is_due(beamtim):
                 self._main_outp_save(buildup_sim)
 
             # Check for checkpoint save state
@@ -543,19 +544,24 @@ class pyecloud_saver:
             if not os.path.isdir(self.checkpoint_folder):
                 os.makedirs(self.checkpoint_folder)
 
+    def _checkpoint_is_due(self, beamtim):
+        return self.flag_save_checkpoint and (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT)
+
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                          sec_beams_list, flag_multiple_clouds, cloud_list):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
-            if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
+            if self._checkpoint_is_due(beamtim):
+
+                # The copy has to be there before the checkpoint that relies on it
+                if self.copy_main_outp_folder is not None:
+                    self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
                 fname_checkp = 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
                 outpath = os.path.join(self.checkpoint_folder, fname_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                                             sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
-                if self.copy_main_outp_folder is not None:
-                    self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
                 if self.flag_last_cloud:
                     for fname in list_checkpoints(self.checkpoint_folder):
@@ -594,7 +600,8 @@ class pyecloud_saver:
 
     def _copy_main_outp_save(self, beamtim):
         if self.flag_copy_main_output:
-            if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
+            flag_main_outp_available = os.path.isfile(self.filen_main_outp)  # not yet if save_mat_every > 1
+            if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT) and flag_main_outp_available:
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
     def load_from_output(self, last_t=None):
-- 
2.43.0


From dee9b5ebd1570fb3208064a45d5a4b405bade57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 07/43] fix: the output recorded up to a checkpoint is restored
 completely

The step-by-step sample of the checkpoint was dropped; energy, lifetime
and space charge histories were truncated on the wrong time axis or not
restored at all (t_hist, lifetime and electron density probes, energy
histograms per segment, electrostatic energy, custom observables); and
quantities with a single sample were restored as numbers.
---
 pyecloud_saver.py | 155 +++++++++++++++++-----------------------------
 1 file changed, 57 insertions(+), 98 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 1763627..c7bb6fc 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -59,7 +59,6 @@ import subprocess
 from . import hist_for as histf
 import time
 from scipy.constants import e as qe
-from . import myloadmat_to_obj as mlm
 import shutil
 try:
     # cPickle is faster in python2
@@ -614,114 +613,74 @@ class pyecloud_saver:
         else:
             load_output_folder = self.folder_outp
 
-        # restore the Pyecltest.mat up to last t
-        ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
-        dict_history = mlm.obj_to_dict(ob)
+        dict_history = sio.loadmat(load_output_folder + '/' + self.fname_only_main_outp)
 
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
+        # Quantities sampled at the same times are truncated together: everything
+        # recorded after the checkpoint is recorded again
+        N_samples = {}
+        for t_name in ['t', 't_hist', 't_En_hist', 't_lifetime_hist', 't_sc_video']:
+            if t_name in dict_history:
+                N_samples[t_name] = np.sum(dict_history[t_name] <= last_t)
 
-        # Delete everything in Pyecltest.mat recorded after the last checkpoint
-        saved_every_timestep_list = ['En_emit_eV_time',
+        # Saved step by step (in buffers that are larger than the recorded data)
+        saved_every_timestep_list = ['t',
+                                     'lam_t_array',
+                                     'Nel_timep',
+                                     'Nel_imp_time',
+                                     'Nel_emit_time',
                                      'En_imp_eV_time',
+                                     'En_emit_eV_time',
                                      'En_kin_eV_time',
-                                     'Nel_emit_time',
-                                     'Nel_imp_time',
-                                     'Nel_timep',
                                      'cen_density',
-                                     'lam_t_array',
                                      'N_mp_time',
                                      'nel_mp_ref_time',
                                      'Nel_cross_ion',
                                      'N_mp_cross_ion',
                                      'DN_cross_ion',
                                      'En_electric_eV_time',
-                                     't']
-
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
-                                    'N_mp_impact_pass',
-                                    'N_mp_pass',
-                                    'N_mp_ref_pass',
-                                    'energ_eV_impact_hist',
-                                    'energ_eV_impact_seg',
-                                    'nel_hist',
-                                    'nel_hist_det',
-                                    'nel_hist_impact_seg',
-                                    'nel_hist_emit_seg',
-                                    'nel_impact_hist_scrub',
-                                    'nel_impact_hist_tot',
-                                    'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
-                                    't_lifetime_hist']
-
-        not_time_dependent_list = ['xg_hist',
-                                   'xg_hist_det',
-                                   'En_g_hist',
-                                   'b_spac',
-                                   't_sec_beams',
-                                   'sec_beam_profiles',
-                                   'x_el_dens_probes',
-                                   'y_el_dens_probes',
-                                   'r_el_dens_probes',
-                                   'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
-                                   'dec_fact_out',
-                                   'chamber_area',
-                                   'sey_test_del_true_mat',
-                                   'sey_test_E_impact_eV',
-                                   'sey_test_del_elast_mat',
-                                   'del_rediff_mat',
-                                   'sey_test_cos_theta',
-                                   'ene_dist_test_cos_theta',
-                                   'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
-                                   ]
-
-        if self.flag_lifetime_hist:
-            not_time_dependent_list.append('lifetime_g_hist')
-
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
-                               'y_el_dens_probes',
-                               'r_el_dens_probes'
-                               ]
-
-        dict_restored = {}
-        for var in saved_every_timestep_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var]
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t]
-        self.i_last_save = len(dict_restored['Nel_timep']) - 1
-
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
-
-        for var in not_time_dependent_list:
-            if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var]
-
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
-
-        # Restore this pyecloud_saver object with values from dict_restored
-        for var in list(dict_restored.keys()):
-            setattr(self, var, dict_restored[var])
+                                     'el_dens_at_probes']
+
+        # Lists of numbers
+        saved_scalars = {'t_hist': ['t_hist', 'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass', 'N_mp_ref_pass'],
+                         't_En_hist': ['t_En_hist'],
+                         't_lifetime_hist': ['t_lifetime_hist'],
+                         't_sc_video': ['t_sc_video', 'U_sc_eV']}
+
+        # Lists of arrays
+        saved_arrays = {'t_hist': ['nel_hist', 'nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist',
+                                   'nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg', 'nel_hist_det'],
+                        't_En_hist': ['En_hist', 'all_Ekin_hist', 'cos_angle_hist'],
+                        't_lifetime_hist': ['lifetime_hist']}
+
+        self.i_last_save = N_samples['t'] - 1
+        if N_samples['t'] > 0:
+            for var in saved_every_timestep_list:
+                if isinstance(getattr(self, var), np.ndarray):
+                    if var not in dict_history:  # not saved (save_only)
+                        setattr(self, var, np.zeros(getattr(self, var).shape[:-1] + (N_samples['t'],)))
+                    elif var == 'el_dens_at_probes':
+                        setattr(self, var, dict_history[var][:, :N_samples['t']])
+                    else:
+                        setattr(self, var, dict_history[var].flatten()[:N_samples['t']])
+
+        # Quantities that are not being recorded are not lists
+        for t_name in N_samples:
+            for var in saved_scalars.get(t_name, []):
+                if var in dict_history and isinstance(getattr(self, var), list):
+                    setattr(self, var, list(dict_history[var].flatten()[:N_samples[t_name]]))
+            for var in saved_arrays.get(t_name, []):
+                if var in dict_history and isinstance(getattr(self, var), list):
+                    setattr(self, var, list(dict_history[var][:N_samples[t_name]]))
+
+        if 'En_hist_seg' in dict_history and isinstance(self.En_hist_seg, list):
+            self.En_hist_seg = [list(hist_seg[:N_samples['t_En_hist']]) for hist_seg in dict_history['En_hist_seg']]
+
+        for kk in list(self.pbp_custom_data.keys()):
+            if kk in dict_history:
+                data = dict_history[kk]
+                if data.size == dict_history['t_hist'].size:  # one number per passage
+                    data = data.flatten()
+                self.pbp_custom_data[kk] = list(data[:N_samples['t_hist']])
 
     def _stepbystep_check_for_data_resize(self):
         if self.i_last_save >= (len(self.t) - 1):
-- 
2.43.0


From 4d6d7ddb5b94ca0abc269d7030739375e2b64867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 08/43] fix: a checkpoint stores the state of the observation

Times of the last saved samples, sums over the steps since then, number
of states already saved and the state of the cross-ionization were
reset by a restart.
---
 buildup_simulation.py | 16 +++++++++++---
 pyecloud_saver.py     | 50 +++++++++++++++++++++++++++++++------------
 2 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index cb3bf56..c3b9a1b 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -491,6 +491,8 @@ class BuildupSimulation(object):
         self.sec_beams_list = dict_state["sec_beams_list"]
 
         self.flag_multiple_clouds = dict_state["flag_multiple_clouds"]
+        if dict_state.get("cross_ion") is not None:
+            self.cross_ion = dict_state["cross_ion"]
 
         for i_cloud, new_cloud in enumerate(self.cloud_list):
             new_pyeclsaver = new_cloud.pyeclsaver
@@ -540,8 +542,16 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
-            cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+        for i_cloud, cloud in enumerate(self.cloud_list):
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
-            cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
+            if "observation_states" in dict_state:
+                observation_state = dict_state["observation_states"][i_cloud]
+                cloud.pyeclsaver.load_from_output(
+                    last_t=self.beamtim.tt_curr,
+                    N_samples=observation_state["N_samples"],
+                )
+                cloud.pyeclsaver.set_observation_state(observation_state)
+            else:
+                cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+                cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index c7bb6fc..2a5f544 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -278,7 +278,7 @@ class pyecloud_saver:
 
         # Check for simulation save state
         self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                             sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
         # Check for save video charge density
         self._rho_video_save(spacech_ele, beamtim, rho_cloud)
@@ -323,7 +323,7 @@ class pyecloud_saver:
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                  sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                                  sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
             self._copy_main_outp_save(beamtim)
 
@@ -547,7 +547,7 @@ class pyecloud_saver:
         return self.flag_save_checkpoint and (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT)
 
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                         sec_beams_list, flag_multiple_clouds, cloud_list):
+                         sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
             if self._checkpoint_is_due(beamtim):
@@ -560,7 +560,7 @@ class pyecloud_saver:
                 outpath = os.path.join(self.checkpoint_folder, fname_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
 
                 if self.flag_last_cloud:
                     for fname in list_checkpoints(self.checkpoint_folder):
@@ -603,7 +603,26 @@ class pyecloud_saver:
             if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT) and flag_main_outp_available:
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-    def load_from_output(self, last_t=None):
+    def get_observation_state(self):
+        '''What is needed, together with the recorded output, to continue observing.'''
+        state = {}
+        for var in ['i_last_save', 't_last_save',
+                    'Nel_impact_last_step_group', 'Nel_emit_last_step_group',
+                    'En_imp_last_step_group_eV', 'En_emit_last_step_group_eV',
+                    't_last_En_hist', 't_last_lifetime_hist', 't_last_copy',
+                    'i_obs', 'i_obs_sim', 'pbp_custom_data']:
+            if hasattr(self, var):
+                state[var] = getattr(self, var)
+        N_samples = {'t': self.i_last_save + 1}
+        for t_name in ['t_hist', 't_En_hist', 't_lifetime_hist', 't_sc_video']:
+            N_samples[t_name] = len(getattr(self, t_name, []))
+        return {'members': state, 'N_samples': N_samples}
+
+    def set_observation_state(self, state):
+        for var in state['members']:
+            setattr(self, var, state['members'][var])
+
+    def load_from_output(self, last_t=None, N_samples=None):
 
         if self.step_by_step_custom_observables is not None:
             raise ValueError('Not implemented! Sorry!')
@@ -617,10 +636,11 @@ class pyecloud_saver:
 
         # Quantities sampled at the same times are truncated together: everything
         # recorded after the checkpoint is recorded again
-        N_samples = {}
-        for t_name in ['t', 't_hist', 't_En_hist', 't_lifetime_hist', 't_sc_video']:
-            if t_name in dict_history:
-                N_samples[t_name] = np.sum(dict_history[t_name] <= last_t)
+        if N_samples is None:
+            N_samples = {}
+            for t_name in ['t', 't_hist', 't_En_hist', 't_lifetime_hist', 't_sc_video']:
+                if t_name in dict_history:
+                    N_samples[t_name] = np.sum(dict_history[t_name] <= last_t)
 
         # Saved step by step (in buffers that are larger than the recorded data)
         saved_every_timestep_list = ['t',
@@ -676,7 +696,7 @@ class pyecloud_saver:
             self.En_hist_seg = [list(hist_seg[:N_samples['t_En_hist']]) for hist_seg in dict_history['En_hist_seg']]
 
         for kk in list(self.pbp_custom_data.keys()):
-            if kk in dict_history:
+            if kk in dict_history and 't_hist' in dict_history:
                 data = dict_history[kk]
                 if data.size == dict_history['t_hist'].size:  # one number per passage
                     data = data.flatten()
@@ -941,7 +961,7 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile, cross_ion=None):
 
         if self.flag_last_cloud:
 
@@ -976,7 +996,9 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
-                't_last_En_hist': self.t_last_En_hist}
+                't_last_En_hist': self.t_last_En_hist,
+                'cross_ion': cross_ion,
+                'observation_states': [saver.get_observation_state() for saver in temp_saver_list]}
 
             if self.flag_lifetime_hist:
                 dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
@@ -1003,7 +1025,7 @@ class pyecloud_saver:
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                        sec_beams_list, flag_multiple_clouds, cloud_list):
+                        sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         #Simulation state save
         if self.flag_save_simulation_state:
             if self.i_obs_sim < self.N_obs_sim:
@@ -1012,7 +1034,7 @@ class pyecloud_saver:
                     outpath = self.folder_outp + '/' + filename_simulation_state
 
                     self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
 
                     self.i_obs_sim = self.i_obs_sim + 1
 
-- 
2.43.0


From 71292a4bbda5a17acc5482d7454ecfcf0fc54371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 09/43] fix: a restart from a checkpoint completes the time
 step of the checkpoint

Cleaning and regeneration of the MPs at the bunch passage of the
checkpoint were skipped.
---
 buildup_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index c3b9a1b..1797790 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -555,3 +555,8 @@ class BuildupSimulation(object):
             else:
                 cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
                 cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
+
+        # The checkpoint is saved before the last operation of its time step
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
-- 
2.43.0


From 1b4a73b23101718ba7e57212c27f710f9f32d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 10/43] fix: saved states and checkpoints include the vector
 potential of electromagnetic tracking

Saving a state failed (state_As does not exist); the vector potential
and its previous value were not restored.
---
 buildup_simulation.py |  6 ------
 pyecloud_saver.py     | 19 -------------------
 2 files changed, 25 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 1797790..c25e3a9 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -517,12 +517,6 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
-        if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
-            self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
-
         print("Done reload.")
         return dict_state
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2a5f544..860ce85 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -969,18 +969,6 @@ class pyecloud_saver:
             spacech_ele.luobj = None
             spacech_ele.PyPICobj.luobj = None
 
-            if spacech_ele.flag_em_tracking:
-                temp_state_Ax = spacech_ele.state_Ax
-                temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
-                temp_state_Ax_old = spacech_ele.state_Ax_old
-                temp_state_Ay_old = spacech_ele.state_Ay_old
-                spacech_ele.state_Ax = None
-                spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
-                spacech_ele.state_Ax_old = None
-                spacech_ele.state_Ay_old = None
-
 
             # remove savers
             temp_saver_list = []
@@ -1015,13 +1003,6 @@ class pyecloud_saver:
 
             spacech_ele.PyPICobj.luobj = temp_luobj
 
-            if spacech_ele.flag_em_tracking:
-                spacech_ele.state_Ax = temp_state_Ax
-                spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
-                spacech_ele.state_Ax_old = temp_state_Ax_old
-                spacech_ele.state_Ay_old = temp_state_Ay_old
-
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-- 
2.43.0


From 8ce9e4b8ed4fa422562377fa88344f47fcc1bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 11/43] fix: secondary beams without a progress file

progress_path may be None (its default for the main beam): the name of the
map generation progress file of a secondary beam failed with a TypeError.
---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 0485389..b90a822 100644
--- a/init.py
+++ b/init.py
@@ -248,6 +248,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                     # in case sb_par.beam_long_prof_file is -1
                     sbeam_long_prof_file_path = sb_par.beam_long_prof_file
 
+                if cc.progress_path is not None:
+                    progress_mapgen_file_sec = cc.progress_path + ('_mapgen_sec_%d' % ii)
+                else:
+                    progress_mapgen_file_sec = None
+
                 sec_beams_list.append(beatim.beam_and_timing(sb_par.flag_bunched_beam, sb_par.fact_beam, sb_par.coast_dens, sb_par.q_part, sb_par.beam_field_file, cc.lam_th,
                                                              b_spac=sb_par.b_spac, sigmaz=sb_par.sigmaz, t_offs=sb_par.t_offs, filling_pattern_file=sb_par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
                                                              beam_long_prof_file=sbeam_long_prof_file_path, Dh_beam_field=sb_par.Dh_beam_field, f_telescope_beam=sb_par.f_telescope_beam,
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=progress_mapgen_file_sec))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From f1a388c545a6b65e5f661d6f84a1e718e9c20219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 12/43] fix: profile of a secondary beam given without
 extension

The existence of the .mat file was tested for the profile of the main beam.
---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index b90a822..488a125 100644
--- a/init.py
+++ b/init.py
@@ -240,7 +240,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From 0185275e57b5d742fdc1dc247b30f00fe5799935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 13/43] fix: short steps of a non-uniform beam profile move the
 cloud

A step shorter than half a substep was rounded to zero substeps: the
particles did not move in it (with an infinite substep length).
---
 buildup_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index c25e3a9..b3a97f4 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -318,7 +318,7 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            N_substeps_curr = max(1, int(np.round(beamtim.Dt_curr / Dt_substep_target)))
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From 697ebad66bf2b36f2c745b1e36d33fc0cddeb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 14/43] fix: a reloaded state completes the time step at which
 it was saved

The state is saved before the cleaning and regeneration of its time step,
which only restarts from checkpoints made up for: continuing from a state
saved at the start of a bunch passage skipped them.
---
 buildup_simulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index b3a97f4..bbb3575 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -517,6 +517,11 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
+        # The state is saved before the last operation of its time step
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
+
         print("Done reload.")
         return dict_state
 
@@ -550,7 +555,3 @@ class BuildupSimulation(object):
                 cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
                 cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
 
-        # The checkpoint is saved before the last operation of its time step
-        self._MP_cleaning_and_regenerations(
-            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
-        )
-- 
2.43.0


From 8c7a3b8a8051cfd7f2cdef5f45d0108446424956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 15/43] fix: multipole and skew components of different lengths

---
 dynamics_Boris_multipole.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynamics_Boris_multipole.py b/dynamics_Boris_multipole.py
index e024762..d06017b 100644
--- a/dynamics_Boris_multipole.py
+++ b/dynamics_Boris_multipole.py
@@ -71,6 +71,12 @@ class pusher_Boris_multipole():
         if B_multip is None or len(B_multip) == 0:
             B_multip = np.array([0.], dtype=float)
 
+        # Missing high-order components (normal or skew) are zero
+        if B_skew is not None:
+            N_orders = max(len(B_multip), len(B_skew))
+            B_multip = list(B_multip) + [0.] * (N_orders - len(B_multip))
+            B_skew = list(B_skew) + [0.] * (N_orders - len(B_skew))
+
         # B_multip are derivatives of B_field
         # B_field are field strengths at x=1 m, y=0
         factorial = np.array([math.factorial(ii) for ii in range(len(B_multip))], dtype=float)
-- 
2.43.0


From bd7cc8097735d84cbf3ae28bdfd0f4a439793c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 16/43] fix: analytic quadrupole recognised by name in the
 StrongBgen tracker

---
 dynamics_strong_B_generalized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 3abcf84..15b2dfa 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file is 'analytic_qaudrupole_unit_grad':
+        elif B_map_file == 'analytic_qaudrupole_unit_grad':
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From 0558dc9aa67955d13da6b6448a35eab51a89d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 17/43] fix: impact point of a path through a vertex or ending
 on the wall was not found

---
 geom_impact_poly_cython.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..83fd159 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -32,7 +32,8 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
     #with nogil, parallel():
     #for i_imp in prange(N_impacts):
     for i_imp in xrange(N_impacts):
-        t_min_curr = 1.
+        # small tolerances: a path through a vertex or ending on the wall is never missed by rounding
+        t_min_curr = 1. + 1e-9
         i_found_curr = -1
         fould_curr = False
         x_in_curr = x_in[i_imp]
@@ -52,7 +53,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
                 t_border=((y_out_curr-y_in_curr)*(x_in_curr-Vx[ii])+(x_in_curr-x_out_curr)*(y_in_curr-Vy[ii]))/den
 
 
-            if t_border>=0. and t_border<=1.:
+            if t_border>=-1e-9 and t_border<=1.+1e-9:
                 t_ii = (Nx[ii]*(Vx[ii]-x_in_curr)+Ny[ii]*(Vy[ii]-y_in_curr)) /(Nx[ii]*(x_out_curr-x_in_curr)+Ny[ii]*(y_out_curr-y_in_curr))
                 if t_ii>=0. and t_ii<t_min_curr:
                     t_min_curr=t_ii
@@ -65,10 +66,10 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
         y_int[i_imp]=t_min_curr*y_out_curr+(1.-t_min_curr)*y_in_curr
         z_int[i_imp]=0
 
+        i_found[i_imp] = i_found_curr
         if i_found_curr>=0:
             Nx_int[i_imp] = Nx[i_found_curr]
             Ny_int[i_imp] = Ny[i_found_curr]
-            i_found[i_imp] = i_found_curr
 
     return x_int, y_int, z_int, Nx_int, Ny_int, i_found
 
-- 
2.43.0


From 81007cd6ce90b4b652405a3fc8effb38b02e6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 18/43] fix: furman_pivi: replaced true secondaries kept the
 velocity of the impact when nothing was added

---
 sec_emission_model_furman_pivi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..c6d17c0 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,6 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
@@ -492,6 +489,10 @@ class SEY_model_furman_pivi():
                 else:
                     i_seg_new_MPs = None
 
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
             # Handle absorbed MPs
             flag_truesec_and_zero = flag_truesec & (n_emit_truesec_MPs == 0)
             nel_replace[flag_truesec_and_zero] = 0.0
-- 
2.43.0


From f49dbc9130cc0c00e77e9951b525a37b9f17d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 19/43] fix: flat_low_ene: reflected electrons counted as true
 secondaries

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From 7d9323ad12c5f733dc21ad92f90526568a9d6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 20/43] fix: ECLOUD_nunif: the defaults of one cloud overwrote
 the description of the chamber

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..c2ff36c 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=float)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=float)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=float)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From 5500d30eb4b8a1c1453921af0ccbf00d51fcd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 21/43] fix: SEY from file: the file that was found is the one
 to read

---
 sec_emission_model_from_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..a9f9dec 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
@@ -113,7 +113,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
         diff_e = np.round(np.diff(energy_eV), 3)
         delta_e = diff_e[0]
         if np.any(diff_e != delta_e):
-            raise ValueError('Energy in file %s is not equally spaced.' % sey_file_real)
+            raise ValueError('Energy in file %s is not equally spaced.' % sey_file)
 
         # sey_diff is needed by the interp function
         # A 0 is appended because this last element is never needed but the array must have the correct shape
-- 
2.43.0


From bbf99a76b465654d0379a62f35871a3fd8ab22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 22/43] fix: extraction of SEY curves charged the surface of
 the simulation

---
 impact_management_class.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index 2903b73..f0be3ab 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -50,6 +50,8 @@
 #
 #-End-preamble---------------------------------------------------------
 
+import copy
+
 import numpy as np
 from . import hist_for as histf
 from . import seg_impact as segi
@@ -360,6 +362,9 @@ class impact_management(object):
 
     def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
 
+        # the test impacts must not act on the surface of the simulation (charging)
+        sey_mod = copy.deepcopy(self.sey_mod)
+
         deltas = {}
         for etype in list(self.sey_mod.event_types.keys()):
             etype_name = self.sey_mod.event_types[etype]
@@ -381,7 +386,7 @@ class impact_management(object):
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                    self.sey_mod.impacts_on_surface(
+                    sey_mod.impacts_on_surface(
                         mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                         vx_impact=vx * np.ones_like(nel_impact),
                         vy_impact=vy * np.ones_like(nel_impact),
@@ -407,6 +412,9 @@ class impact_management(object):
 
     def extract_energy_distributions(self, n_rep, E_impact_eV_test, cos_theta_test, mass, Nbin_extract_ene, factor_ene_dist_max):
         """Extract energy distributions for secondary electrons."""
+        # the test impacts must not act on the surface of the simulation (charging)
+        sey_mod = copy.deepcopy(self.sey_mod)
+
         emit_ene_g_hist = np.linspace(
             0., E_impact_eV_test * factor_ene_dist_max, Nbin_extract_ene)
         Dextract_ene = emit_ene_g_hist[1] - emit_ene_g_hist[0]
@@ -430,7 +438,7 @@ class impact_management(object):
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                self.sey_mod.impacts_on_surface(
+                sey_mod.impacts_on_surface(
                     mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                     vx_impact=vx * np.ones_like(nel_impact),
                     vy_impact=vy * np.ones_like(nel_impact),
-- 
2.43.0


From 72e4bd63904cbdcad007f09aaf6624a521aba580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 23/43] fix: points of extracted SEY curves depended on the
 preceding ones (charging)

---
 impact_management_class.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index f0be3ab..809a25b 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -362,9 +362,6 @@ class impact_management(object):
 
     def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
 
-        # the test impacts must not act on the surface of the simulation (charging)
-        sey_mod = copy.deepcopy(self.sey_mod)
-
         deltas = {}
         for etype in list(self.sey_mod.event_types.keys()):
             etype_name = self.sey_mod.event_types[etype]
@@ -383,6 +380,9 @@ class impact_management(object):
                 vx = v_mod * ct
                 vy = v_mod * np.sqrt(1 - ct * ct)
 
+                # the test impacts must not act on the surface of the simulation, nor on
+                # one another (charging)
+                sey_mod = copy.deepcopy(self.sey_mod)
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
@@ -412,9 +412,6 @@ class impact_management(object):
 
     def extract_energy_distributions(self, n_rep, E_impact_eV_test, cos_theta_test, mass, Nbin_extract_ene, factor_ene_dist_max):
         """Extract energy distributions for secondary electrons."""
-        # the test impacts must not act on the surface of the simulation (charging)
-        sey_mod = copy.deepcopy(self.sey_mod)
-
         emit_ene_g_hist = np.linspace(
             0., E_impact_eV_test * factor_ene_dist_max, Nbin_extract_ene)
         Dextract_ene = emit_ene_g_hist[1] - emit_ene_g_hist[0]
@@ -435,6 +432,9 @@ class impact_management(object):
             vx = v_mod * ct
             vy = v_mod * np.sqrt(1 - ct * ct)
 
+            # the test impacts must not act on the surface of the simulation, nor on
+            # one another (charging)
+            sey_mod = copy.deepcopy(self.sey_mod)
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-- 
2.43.0


From a1271acef6c7e55d2061dd0c053ac47528b932f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 24/43] fix: impact histograms of an additional cloud follow
 its own parameters

---
 init.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/init.py b/init.py
index 488a125..046aa39 100644
--- a/init.py
+++ b/init.py
@@ -411,16 +411,16 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('Warning: You cannot enable flag_hist_impact_seg for an ellip chamber --> disabled!')
             flag_seg = False
 
-        if cc.flag_lifetime_hist:
-            if cc.Nbin_lifetime_hist is None or cc.lifetime_hist_max is None or cc.Dt_lifetime_hist is None:
+        if thiscloud.flag_lifetime_hist:
+            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                 raise inp_spec.PyECLOUD_ConfigException(
                         'If flag_lifetime_hist is True then all the histogram parameters must be specified')
 
         impact_man = imc.impact_management(chamb, sey_mod,
-            thiscloud.Dx_hist, thiscloud.scrub_en_th, cc.Nbin_En_hist, cc.En_hist_max,
-            cc.Nbin_lifetime_hist, cc.lifetime_hist_max, cc.flag_lifetime_hist,
+            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
+            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
             flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
-            cos_angle_width=cc.cos_angle_width)
+            cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
-- 
2.43.0


From 5078aed91643ac262d790f26f819d7aa587cf8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 25/43] fix: BorisMultipole uses the sub-steps of each cloud

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 046aa39..0d3ad53 100644
--- a/init.py
+++ b/init.py
@@ -515,7 +515,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 5869f57acca9aca49bb31a7a333dcff9ee9b5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 26/43] fix: StrongBgen without B0x or B0y

---
 init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 0d3ad53..dd81b2d 100644
--- a/init.py
+++ b/init.py
@@ -512,7 +512,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBgen tracking method is implemented only for electrons!')
-            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
+            temp_B0x = {True: 0., False: cc.B0x}[cc.B0x is None]
+            temp_B0y = {True: 0., False: cc.B0y}[cc.B0y is None]
+            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, temp_B0x, temp_B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
             dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
-- 
2.43.0


From a1b0a38df5961a9670d8496e8dbc2bf3790553a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 27/43] fix: accept the documented name of the analytic
 quadrupole map

---
 dynamics_Boris_f2py.py           | 2 +-
 dynamics_strong_B_generalized.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamics_Boris_f2py.py b/dynamics_Boris_f2py.py
index 1f30fa3..57759a2 100644
--- a/dynamics_Boris_f2py.py
+++ b/dynamics_Boris_f2py.py
@@ -152,7 +152,7 @@ class pusher_Boris():
         if B_map_file is None:
             self.B_ob = B_none(B0x, B0y, B0z)
 
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.B_ob = B_quad(B0x, B0y, B0z, fact_Bmap)
 
diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 15b2dfa..d766bd6 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From 7f3c5c8173f87362112d6b4f548928951ef1f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 28/43] fix: refuse FFT solvers with electromagnetic tracking
 at initialization

---
 space_charge_class_electromagnetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/space_charge_class_electromagnetic.py b/space_charge_class_electromagnetic.py
index 83de810..cf4b44f 100644
--- a/space_charge_class_electromagnetic.py
+++ b/space_charge_class_electromagnetic.py
@@ -79,6 +79,9 @@ class space_charge_electromagnetic(space_charge, object):
         super(space_charge_electromagnetic, self).__init__(chamb, Dh, Dt_sc, PyPICmode , sparse_solver,
                      f_telescope, target_grid, N_nodes_discard, N_min_Dh_main, Dh_U_eV)
 
+        if PyPICmode in ('FFT_OpenBoundary', 'FFT_PEC_Boundary'):
+            raise ValueError('''Electromagnetic space charge cannot be used with PyPICmode = '%s' ''' % PyPICmode)
+
         self.flag_em_tracking = True
         # Initialize additional states for vector potential
         # The text trap makes sure that no output is shown in the terminal
-- 
2.43.0


From e7879068c56f0783b737dbe5af46d279fab0a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 29/43] fix: refuse fields at substeps for trackers without
 substeps at initialization

---
 init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/init.py b/init.py
index dd81b2d..2b91b9e 100644
--- a/init.py
+++ b/init.py
@@ -486,6 +486,8 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('pyeclsaver saves to file: %s' % pyeclsaver.filen_main_outp)
 
         # Init electron tracker
+        if cc.flag_reinterp_fields_at_substeps and cc.track_method in ('StrongBdip', 'StrongBgen'):
+            raise inp_spec.PyECLOUD_ConfigException("flag_reinterp_fields_at_substeps cannot be used with track_method = '%s', which has no substeps" % cc.track_method)
         if cc.track_method == 'Boris':
             if cc.flag_em_tracking == True:
                 raise ValueError("Track_method should be 'BorisMultipole' to use electromagnetic space charge!!")
-- 
2.43.0


From f67ab443db3c7df7bfc3b0662364b66cd2a82866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 30/43] fix: refuse photoemission energy distributions with
 negative energies

---
 electron_emission.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electron_emission.py b/electron_emission.py
index 82c2f02..e0d78d8 100644
--- a/electron_emission.py
+++ b/electron_emission.py
@@ -285,8 +285,12 @@ def get_energy_distribution_func(energy_distribution, e_pe_sigma, e_pe_max):
     elif energy_distribution == 'gaussian':
         get_energy = _gaussian
     elif energy_distribution == 'rect':
+        if e_pe_max < abs(e_pe_sigma) / 2.:
+            raise ValueError("Energy distribution 'rect' with e_pe_max < e_pe_sigma/2 has negative energies!")
         get_energy = _rect
     elif energy_distribution == 'mono':
+        if e_pe_max < 0.:
+            raise ValueError("Energy distribution 'mono' with e_pe_max < 0 has negative energies!")
         get_energy = _mono
     elif energy_distribution == 'lorentz':
         get_energy = _lorentz
-- 
2.43.0


From 15a536c1eb0c48457aa2f58ba16609d2ff7de635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 31/43] fix: refuse StrongBgen without B_zero_thrhld at
 initialization

---
 init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/init.py b/init.py
index 2b91b9e..f461902 100644
--- a/init.py
+++ b/init.py
@@ -514,6 +514,8 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBgen tracking method is implemented only for electrons!')
+            if cc.B_zero_thrhld is None:
+                raise inp_spec.PyECLOUD_ConfigException("B_zero_thrhld has to be provided for track_method = 'StrongBgen'")
             temp_B0x = {True: 0., False: cc.B0x}[cc.B0x is None]
             temp_B0y = {True: 0., False: cc.B0y}[cc.B0y is None]
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, temp_B0x, temp_B0y,
-- 
2.43.0


From e3abb98b57a4f399fb41bb13926f680d775eebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 32/43] fix: beam field of round beams with the
 Bassetti-Erskine formula

---
 BassErsk.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 53a7601..02ce240 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -17,7 +17,20 @@ def BassErsk(xin, yin, sigmax, sigmay):
 
     eps0 = 8.854187817620e-12
 
-    if sigmax > sigmay:
+    if abs(sigmax - sigmay) < 1e-6 * sigmax:
+
+        # Round beam (the formula below is singular)
+        r2 = x * x + y * y
+        sig2 = sigmax * sigmay
+        if r2 > 0:
+            fact = -expm1(-r2 / (2 * sig2)) / (2 * pi * eps0 * r2)
+        else:
+            fact = 1 / (4 * pi * eps0 * sig2)
+
+        Ex = fact * xin
+        Ey = fact * yin
+
+    elif sigmax > sigmay:
 
         S = sqrt(2 * (sigmax * sigmax - sigmay * sigmay))
         factBE = 1 / (2 * eps0 * sqrt(pi) * S)
-- 
2.43.0


From d62ff75556b03aba334b04cf44a831091bc8ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 33/43] fix: image field in elliptic chambers higher than wide

---
 BassErsk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BassErsk.py b/BassErsk.py
index 02ce240..c6d67fc 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -61,6 +61,11 @@ def ImageTerms(x, y, a, b, x0, y0, nimag):
 
     eps0 = 8.854187817620e-12
 
+    if b > a:
+        # Foci on the vertical axis
+        Ey, Ex = ImageTerms(y, x, b, a, y0, x0, nimag)
+        return Ex, Ey
+
     if abs((a - b) / a) > 1e-3:
         g = sqrt(a * a - b * b)
 
-- 
2.43.0


From 49550ad0e9d004f8341c05b1b4fead695e1e9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 34/43] fix: keep the weights below the range of a histogram
 within its array

---
 compute_hist.f | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compute_hist.f b/compute_hist.f
index c827f15..9256a15 100644
--- a/compute_hist.f
+++ b/compute_hist.f
@@ -38,11 +38,13 @@ Cf2py intent(inout) hist
 		!write (*,*) 'Nxg=', Nxg
 		!write (*,*) 'i=', i
 
-		if (i<Nxg) then
+		if (fi>=1 .and. fi<Nxg) then
         	hist(i) = hist(i) + wei_mp_curr*(1-hx);
         	hist(i+1) = hist(i+1) + wei_mp_curr*hx;
-        	else
+        	else if (fi>=Nxg) then
         	hist(Nxg)=hist(Nxg)+ wei_mp_curr
+        	else
+        	hist(1)=hist(1)+ wei_mp_curr
 		end if
        
 	end do
-- 
2.43.0


From 7d5ef03c8bce1cb4dc6b5584e5e9a6ff2ca2bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 35/43] fix: detailed histogram of passages without electrons

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 860ce85..5970f56 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -389,6 +389,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -399,8 +401,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From e64d8024c754fd2d2e550d01add865670e5fee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 36/43] fix: each initial and ionization electron has its own
 thermal velocity

---
 MP_system.py            | 12 ++++++------
 gas_ionization_class.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 4f5f10a..8cf60f8 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -474,10 +474,10 @@ class MP_system:
                 self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = y_temp
                 self.z_mp[self.N_mp:self.N_mp + Nint_new_MP] = 0.
                 #randn(Nint_new_MP,1)
-                self.vx_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
+                self.vx_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
                 #if you note a towards down polarization look here
-                self.vy_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
-                self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
+                self.vy_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
+                self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
                 if self.flag_lifetime_hist:
@@ -521,10 +521,10 @@ class MP_system:
             self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = y_temp
             self.z_mp[self.N_mp:self.N_mp + Nint_new_MP] = 0.
             #randn(Nint_new_MP,1)
-            self.vx_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
+            self.vx_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
             #if you note a towards down polarization look here
-            self.vy_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
-            self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
+            self.vy_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
+            self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
             self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
         if self.flag_lifetime_hist:
diff --git a/gas_ionization_class.py b/gas_ionization_class.py
index 096495a..8932134 100644
--- a/gas_ionization_class.py
+++ b/gas_ionization_class.py
@@ -118,9 +118,9 @@ class residual_gas_ionization:
             MP_e.x_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = x_temp # Be careful to the indexing when translating to python
             MP_e.y_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = y_temp
             MP_e.z_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = 0. # randn(Nint_new_MP,1)
-            MP_e.vx_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = v0 * (rand() - 0.5) # if you note a towards down polarization look here
-            MP_e.vy_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
-            MP_e.vz_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
+            MP_e.vx_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5) # if you note a towards down polarization look here
+            MP_e.vy_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
+            MP_e.vz_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = v0 * (rand(Nint_new_MP) - 0.5)
             MP_e.nel_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = MP_e.nel_mp_ref
         
             if self.flag_lifetime_hist:
-- 
2.43.0


From 801796ed4846b1e413503e7b27f5da0bd195892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 37/43] fix: the field map is recorded with the given bunch
 even after earlier passages

---
 PyEC4PyHT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..8ff756c 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -466,7 +466,7 @@ class Ecloud(object):
         self, bunch, delete_ecloud_data=True
     ):
         self.save_ele_field = True
-        self.track_only_first_time = True
+        self.track_only_first_time = False
         if self.slice_by_slice_mode:
             if not hasattr(bunch, "__iter__"):
                 raise ValueError("A list of slices should be provided!")
-- 
2.43.0


From 6b2e7fe930b5212895eabc29f81be3d95c1e186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 38/43] fix: no beam distribution and field are recorded for
 slices without beam

---
 PyEC4PyHT.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 8ff756c..e3db47b 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -635,6 +635,8 @@ class Ecloud(object):
 
             ## Diagnostics
             MPe_for_save = self.cloudsim.cloud_list[0].MP_e
+            # the beam state is not updated without beam particles
+            beam_present = 0.0 if dummybeamtim.PyPIC_state is None else 1.0
 
             if self.save_ele_distributions_last_track:
                 self.rho_ele_last_track.append(spacech_ele.rho.copy())
@@ -647,14 +649,14 @@ class Ecloud(object):
                 self.Ey_ele_last_track.append(spacech_ele.efy.copy())
 
             if self.save_beam_distributions_last_track:
-                self.rho_beam_last_track.append(self.beam_PyPIC_state.rho.copy())
+                self.rho_beam_last_track.append(beam_present * self.beam_PyPIC_state.rho)
 
             if self.save_beam_potential:
-                self.phi_beam_last_track.append(self.beam_PyPIC_state.phi.copy())
+                self.phi_beam_last_track.append(beam_present * self.beam_PyPIC_state.phi)
 
             if self.save_beam_field:
-                self.Ex_beam_last_track.append(self.beam_PyPIC_state.efx.copy())
-                self.Ey_beam_last_track.append(self.beam_PyPIC_state.efy.copy())
+                self.Ex_beam_last_track.append(beam_present * self.beam_PyPIC_state.efx)
+                self.Ey_beam_last_track.append(beam_present * self.beam_PyPIC_state.efy)
 
             if self.save_ele_MP_position:
                 self.x_MP_last_track.append(MPe_for_save.x_mp.copy())
-- 
2.43.0


From bfaec72dfc778614f8b5571e95f29b69984fb97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 39/43] fix: each turn starts in the field of the initial cloud

---
 PyEC4PyHT.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index e3db47b..f0ec7db 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -744,6 +744,13 @@ class Ecloud(object):
                     + "__iter%d.mat" % self.i_reinit
                 )
 
+        # Fields of the initial cloud (the first slice would otherwise see those of the previous turn)
+        dummybeamtim = DummyBeamTim(None)
+        dummybeamtim.tt_curr = self.t_sim
+        self.cloudsim._recompute_cloud_spacecharge(
+            dummybeamtim, flag_recompute_space_charge=False, force_recompute_space_charge=True
+        )
+
         if self.save_ele_distributions_last_track:
             self.rho_ele_last_track = []
 
-- 
2.43.0


From 6180af2216ea4d7b8c12db4be8135ae85b181821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 40/43] fix: the output options of the simulation hold for
 every turn

---
 PyEC4PyHT.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index f0ec7db..35e8fc0 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -729,12 +729,20 @@ class Ecloud(object):
                     Dx_hist_det=thisconf.Dx_hist_det,
                     dec_fact_out=cc.dec_fact_out,
                     stopfile=cc.stopfile,
+                    save_mat_every=cc.save_mat_every,
                     filen_main_outp=thisconf.filen_main_outp,
                     flag_cos_angle_hist=thisconf.flag_cos_angle_hist,
                     cos_angle_width=thisconf.cos_angle_width,
                     flag_multiple_clouds=(len(self.cloudsim.cloud_list) > 1),
                     cloud_name=thisconf.cloud_name,
                     flag_last_cloud=(thiscloud is self.cloudsim.cloud_list[-1]),
+                    step_by_step_custom_observables=cc.step_by_step_custom_observables,
+                    pass_by_pass_custom_observables=cc.pass_by_pass_custom_observables,
+                    save_once_custom_observables=cc.save_once_custom_observables,
+                    flag_lifetime_hist=thisconf.flag_lifetime_hist,
+                    Dt_lifetime_hist=thisconf.Dt_lifetime_hist,
+                    save_only=thisconf.save_only,
+                    flag_electric_energy=(cc.Dh_electric_energy is not None),
                 )
 
                 thiscloud.pyeclsaver.filen_main_outp = (
-- 
2.43.0


From 7380ec78a417ade4309e0c4fed794d5184623381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 41/43] fix: the time of the last impact is restored with the
 initial macroparticles

---
 MP_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 8cf60f8..6a29009 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -588,6 +588,8 @@ class MP_system:
             'nel_mp': self.nel_mp[:self.N_mp].copy(),
             'N_mp': self.N_mp,
         }
+        if self.flag_lifetime_hist:
+            dict_MP['t_last_impact'] = self.t_last_impact[:self.N_mp].copy()
         return dict_MP
 
     def init_from_dict(self, dict_MP):
-- 
2.43.0


From cd1f3f599b80d4f9db73253553b89c9d1e239af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 42/43] fix: the recorded field map does not kick in a disabled
 plane

---
 PyEC4PyHT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 35e8fc0..3588aa0 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -440,8 +440,8 @@ class Ecloud(object):
             self.efieldmap = Transverse_Efield_map(
                 xg=self.spacech_ele.xg,
                 yg=self.spacech_ele.yg,
-                Ex=self.Ex_ele_last_track,
-                Ey=self.Ey_ele_last_track,
+                Ex=self.Ex_ele_last_track if self.enable_kick_x else 0.0 * self.Ex_ele_last_track,
+                Ey=self.Ey_ele_last_track if self.enable_kick_y else 0.0 * self.Ey_ele_last_track,
                 L_interaction=self.L_ecloud,
                 slicer=self.slicer,
                 flag_clean_slices=True,
-- 
2.43.0


From f72e3fd7b625f16555cce9e831cf66a1b24533d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:13 +0000
Subject: [PATCH 43/43] fix: velocity cells of a full regeneration were sized
 by macroparticles that are gone

---
 MP_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 6a29009..d42415a 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -272,9 +272,9 @@ class MP_system:
 
             #Assign particle to grid
             #
-            vx_max = max(abs(self.vx_mp))
-            vy_max = max(abs(self.vy_mp))
-            vz_max = max(abs(self.vz_mp))
+            vx_max = np.max(np.abs(self.vx_mp[0:self.N_mp]), initial=0.)
+            vy_max = np.max(np.abs(self.vy_mp[0:self.N_mp]), initial=0.)
+            vz_max = np.max(np.abs(self.vz_mp[0:self.N_mp]), initial=0.)
             if vx_max == 0:
                 vx_max = 1e-5
             if vy_max == 0:
-- 
2.43.0

