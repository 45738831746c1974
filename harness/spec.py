"""What each property's check is built from."""
COMMON_FLAGS = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w"]
OPT_SRC = []
IMG_SRC = []
ROS_SRC = []
CERES = ["-lceres", "-lglog"]
YAML = ["-lyaml-cpp"]
CV = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_features2d", "-lopencv_calib3d", "-lopencv_aruco",
      "-lopencv_imgcodecs", "-lopencv_highgui"]
BASE = ["covariance_analysis.cpp", "eigen_conversions.cpp"]

SPEC = {
    "C01": dict(harness=["c01_conversions.cpp"], opt=["eigen_conversions.cpp"], libs=CERES),
    "C02": dict(harness=["c02_projection.cpp"], opt=["eigen_conversions.cpp"], libs=CERES + CV),
    "C03": dict(harness=["c03_pnp.cpp", "geom.cpp"], opt=BASE + ["pnp.cpp"], libs=CERES),
}
SCENE = ["scene.cpp", "scene_solve.cpp", "geom.cpp"]
SOLVERS = BASE + ["pnp.cpp", "extrinsic_hand_eye.cpp", "extrinsic_multi_static_camera.cpp",
                  "extrinsic_multi_static_camera_only.cpp", "extrinsic_multi_static_camera_wrist_only.cpp",
                  "multi_camera_pnp.cpp"]
for _i, _f in (("C04", "c04_handeye"), ("C05", "c05_multistatic"), ("C06", "c06_cameraonly"), ("C07", "c07_wristonly"),
               ("C08", "c08_multipnp")):
    SPEC[_i] = dict(harness=[_f + ".cpp"] + SCENE, opt=SOLVERS, libs=CERES,
                    technique="property-based testing: recovery of generated scenes, optimality against an independent model and solver")
SPEC["C09"] = dict(harness=["c09_costs.cpp"] + SCENE, opt=SOLVERS + ["circle_fit.cpp"], libs=CERES,
                   technique="property-based testing: reported costs against an independent measurement model")
SPEC["C10"] = dict(harness=["c10_metamorphic.cpp"] + SCENE, opt=SOLVERS, libs=CERES,
                   technique="property-based testing: metamorphic relations (order, frames, units) and call histories")
SPEC["C12"] = dict(harness=["c12_circle.cpp", "geom.cpp"], opt=BASE + ["circle_fit.cpp"], libs=CERES,
                   technique="property-based testing: recovery, closed-form reference fit and metamorphic moves")
SPEC["C13"] = dict(harness=["c13_correlation.cpp", "geom.cpp"], opt=["covariance_analysis.cpp"], libs=CERES,
                   technique="property-based testing: generated covariance matrices against the definitions")
SPEC["C14"] = dict(harness=["c14_covariance.cpp"] + SCENE, opt=SOLVERS + ["circle_fit.cpp"], libs=CERES,
                   technique="property-based testing: numerically differentiated reference model; random least-squares problems with known Jacobians")
SPEC["C14"]["harness"].insert(1, "c11_intrinsics.cpp")
SPEC["C14"]["opt"] = SPEC["C14"]["opt"] + ["camera_intrinsic.cpp"]
SPEC["C11"] = dict(harness=["c11_intrinsics.cpp", "geom.cpp"], opt=BASE + ["pnp.cpp", "camera_intrinsic.cpp"], libs=CERES,
                   technique="property-based testing: images rendered through an independent OpenCV camera model")
SPEC["C01"]["technique"] = "property-based testing: round trips and an independent exponential map over generated poses"
SPEC["C02"]["technique"] = "property-based testing: differential check of all projection paths against the pinhole formula"
SPEC["C03"]["technique"] = "property-based testing: recovery of generated poses, optimality against reference solvers"
SPEC["C15"] = dict(harness=["c15_dhchain.cpp", "geom.cpp"], opt=["dh_chain.cpp"], libs=CERES,
                   technique="property-based testing: generated chains against an independent DH product and numerical derivatives")
SPEC["C16"] = dict(harness=["c15_dhchain.cpp", "geom.cpp"], opt=["dh_chain.cpp"], libs=CERES,
                   technique="property-based testing: range, uniformity and reproducibility of samples drawn in fresh processes")
SPEC["C17"] = dict(harness=["c17_unit.cpp", "c17_mask.cpp", "c17_kinematic.cpp", "geom.cpp"], plain=["c17_unit.cpp", "c17_kinematic.cpp"], opt=BASE + ["dh_chain.cpp"], libs=CERES,
                   technique="property-based testing: generated robots and measurements against an independent kinematic model",
                   assumptions=["The sources under test are written for Ceres < 2.2 and are compiled against the installed Ceres 2.2 through harness/shim/ceres/local_parameterization.h (renamed classes only)."])
SPEC["C18"] = dict(harness=["c18_yaml.cpp", "geom.cpp"], opt=["dh_chain.cpp"], libs=CERES + YAML,
                   technique="property-based testing: round trips of generated objects; generated documents against an own decoder")
SPEC["C19"] = dict(harness=["c18_yaml.cpp", "geom.cpp"], opt=["dh_chain.cpp"], libs=CERES + YAML,
                   technique="property-based testing: structural and byte mutations of generated documents against an own decoder")
TGT = ["modified_circle_grid_target.cpp", "aruco_grid_target.cpp", "charuco_grid_target.cpp"]
FIND = ["modified_circle_grid_finder.cpp", "aruco_finder.cpp", "charuco_finder.cpp", "circle_detector.cpp"]
SPEC["C25"] = dict(harness=["c25_targets.cpp", "geom.cpp"], img=TGT + FIND, ros=["target_loader_plugins.cpp", "loader_utils.cpp"], libs=CERES + YAML + CV,
                   technique="property-based testing: generated target definitions and feature sets against the documented layout")
SPEC["C32"] = dict(harness=["c32_equality.cpp", "c25_targets.cpp", "geom.cpp"], img=TGT + FIND, ros=["target_loader_plugins.cpp", "loader_utils.cpp"], libs=CERES + YAML + CV,
                   technique="property-based testing: generated objects and every single-field change of them")
for _p in ("C20", "C21"):
    SPEC[_p] = dict(harness=["c20_homography.cpp", "geom.cpp"], opt=["validation/homography_validation.cpp"], libs=CERES,
                    technique="property-based testing: generated projective maps of planar targets and displaced features" if _p == "C20"
                    else "property-based testing: generated grids and sample sizes against the definition; frequencies over seeds")
SPEC["C22"] = dict(harness=["c22_backprojection.cpp", "geom.cpp"], opt=["validation/projection.cpp"], libs=CERES,
                   technique="property-based testing: geometric definition and round trip through an independent projection")
SPEC["C23"] = dict(harness=["c23_noise.cpp", "geom.cpp"], opt=BASE + ["pnp.cpp", "validation/noise_qualification.cpp", "validation/camera_intrinsic_calibration_validation.cpp"], libs=CERES,
                   technique="property-based testing: generated views and orientations against the definition of the statistics; metamorphic rotations")
SPEC["C24"] = dict(SPEC["C23"], technique="property-based testing: generated observations against differences of separately estimated poses")
SPEC["C26"] = dict(harness=["c26_circlegrid.cpp", "geom.cpp"], plain=["c26_circlegrid.cpp"], img=TGT + FIND, libs=CERES + CV,
                   technique="property-based testing: rendered images with known dot positions")
SPEC["C28"] = dict(harness=["c28_images.cpp", "geom.cpp"], img=TGT + FIND, opt=["eigen_conversions.cpp"], libs=CERES + CV,
                   technique="fuzzing of the image routines with memory checking; property-based testing of drawn shapes with known measures")
SPEC["C27"] = dict(harness=["c27_boards.cpp", "geom.cpp"], plain=["c27_boards.cpp"], img=TGT + FIND, libs=CERES + CV,
                   technique="property-based testing: rendered boards with known corner positions, occlusions and foreign markers")
SPEC["C29"] = dict(harness=["c29_dataset.cpp", "geom.cpp"], ros=["data_set.cpp", "parameter_loaders.cpp"], libs=CERES + YAML + CV,
                   technique="property-based testing: histories of saving, damaging and loading in scratch directories; generated multi-camera sets against a model")
SPEC["C30"] = dict(harness=["c30_loaders.cpp", "c25_targets.cpp", "geom.cpp"], img=TGT + FIND, ros=["target_loader_plugins.cpp", "loader_utils.cpp", "parameter_loaders.cpp"], libs=CERES + YAML + CV,
                   technique="property-based testing: generated parameter structures and files, complete, incomplete and malformed, against an own reading of them")
SPEC["C31"] = dict(harness=["c31_print.cpp", "geom.cpp"],
                   technique="property-based testing: printed values, transforms and differences read back and compared with independent computations")
CV_NO_GUI = [l for l in CV if l != "-lopencv_highgui"]
ALL_OPT = SOLVERS + ["circle_fit.cpp", "camera_intrinsic.cpp", "dh_chain.cpp", "validation/homography_validation.cpp", "validation/projection.cpp",
                     "validation/noise_qualification.cpp", "validation/camera_intrinsic_calibration_validation.cpp"]
TOOLS = dict(opt=ALL_OPT, ros=["data_set.cpp", "parameter_loaders.cpp", "loader_utils.cpp"], libs=CERES + YAML + CV_NO_GUI)
EX = "rct_examples/src/tools/"
SPEC["C33"] = dict(TOOLS, harness=["c33_handeye_tools.cpp", "tools.cpp", "geom.cpp"], programs=[EX + "camera_on_wrist_extrinsic.cpp", EX + "static_camera_extrinsic.cpp"],
                   technique="property-based testing: the programs run on generated data sets with an exact target finder; printed results against the truth and a direct solution")
SPEC["C34"] = dict(TOOLS, harness=["c34_multicam_tools.cpp", "tools.cpp", "geom.cpp"],
                   programs=[EX + n + ".cpp" for n in ("multi_static_camera_extrinsic", "multi_static_camera_multi_step_extrinsic", "solve_multi_camera_pnp")],
                   technique="property-based testing: the programs run on generated data sets with an exact target finder; printed results against the truth and a direct solution")
SPEC["C35"] = dict(TOOLS, harness=["c35_camera_tools.cpp", "tools.cpp", "geom.cpp"],
                   programs=[EX + n + ".cpp" for n in ("intrinsic_calibration", "solve_pnp", "noise_qualification_2d", "camera_intrinsic_calibration_validation")],
                   technique="property-based testing: the programs run on generated pictures with an exact target finder; printed results against the truth and a direct computation")
SPEC["C36"] = dict(TOOLS, harness=["c36_collection.cpp", "tools.cpp", "geom.cpp"], programs=["rct_ros_tools/src/command_line_cal.cpp"],
                   technique="stateful property-based testing: generated histories of pictures, poses, triggers and saves of the running program against a model")
NOT_APPLICABLE = {}

for _p in ("C09", "C10", "C14"):
    SPEC[_p]["harness"] = SPEC[_p]["harness"] + [h for h in ("c11_intrinsics.cpp", "c17_unit.cpp", "c17_kinematic.cpp") if h not in SPEC[_p]["harness"]]
    SPEC[_p]["opt"] = SPEC[_p]["opt"] + [o for o in ("camera_intrinsic.cpp", "dh_chain.cpp", "circle_fit.cpp") if o not in SPEC[_p]["opt"]]
    SPEC[_p]["plain"] = SPEC["C17"]["plain"]
    SPEC[_p]["assumptions"] = SPEC["C17"]["assumptions"]
