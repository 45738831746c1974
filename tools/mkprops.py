import json
O='rct_optimizations/'
OI=O+'include/rct_optimizations/'; OS=O+'src/rct_optimizations/'
II='rct_image_tools/include/rct_image_tools/'; IS='rct_image_tools/src/rct_image_tools/'
R='rct_ros_tools/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p('C01','Pose conversion between 6-vector and homogeneous form is lossless',
 'Converting any rigid transform to its six-value (angle-axis, translation) form and back yields the same transform, and converting any six-value pose to a transform yields a proper rotation equal to the exponential of its angle-axis part with its translation unchanged. Transforming any point with the six-value pose gives the same point as applying the homogeneous transform. This includes rotations by exactly 0, tiny angles, angles at and next to pi, and angle-axis vectors longer than pi.',
 ['inputs'],'all rigid transforms / all finite six-value poses / all points',
 'conversion_utest checks a handful of fixed poses; angle regimes (0, tiny, pi) and the point-transform agreement are never swept.',
 [OS+'eigen_conversions.cpp',OI+'eigen_conversions.h',OI+'ceres_math_utilities.h'],
 [('pose conversions','eigen_conversions.cpp'),('angle-axis point transform','ceres_math_utilities.h')],['return values'])
p('C02','All projection paths implement the same pinhole model',
 'For every point whose depth is not within about 1e-10 of zero, in front of or behind the camera, every projection function of the library (double-valued or used through automatic differentiation, in the optimisation and in the image tools) yields u = fx*x/z + cx and v = fy*y/z + cy, and the derivatives seen by the optimiser are those of that function. A point with exactly zero depth (or one within 1e-10 of it) is handled without division by zero: finite pixel coordinates are returned.',
 ['inputs'],'all intrinsics, all points (z>0, z<0, z=0), all pose/point sets',
 'Tests only project points in front of the camera through one path, as part of building observations.',
 [OI+'ceres_math_utilities.h',II+'image_utils.h'],
 [('projectPoint overloads','ceres_math_utilities.h'),('getReprojections','image_utils.h')],['return values'])
p('C03','PnP recovers the pose that best explains a single view (2D and 3D)',
 'For any camera, any target geometry that determines a pose and any initial guess near the true pose (including guesses that are exactly right or have no rotation at all), single-view pose estimation on noise-free 2D or 3D correspondences converges to the true camera-to-target transform with essentially zero cost. With noisy correspondences the returned pose is a local optimum of the squared error over all the correspondences given: no worse than the guess and no worse than an independent solver started from the truth.',
 ['inputs'],'all intrinsics, target geometries, true poses, guesses within the basin, pixel/point noise',
 'pnp_utest uses one grid target at a few poses; noise optimality and singular guesses are not covered.',
 [OS+'pnp.cpp',OI+'pnp.h'],[('2D/3D cost functors and ceres solve','pnp.cpp')],['PnPResult'])
p('C04','Hand-eye calibration recovers camera and target mounting transforms',
 'For any noise-free set of observations with enough view diversity (camera on the robot with fixed target, target on the robot with fixed camera, or both moving; 2D or 3D sensors; any number of correspondences per observation), hand-eye calibration started near the truth converges to the true camera-mount-to-camera and target-mount-to-target transforms. With measurement noise the result is a local optimum of the total squared error over every correspondence of every observation. When the guesses place a 2D feature behind the camera the problem is refused with an error instead of being solved.',
 ['inputs','configurations'],'all mount configurations, observation counts/sizes, true transforms, guesses, noise; 2D and 3D',
 'Tests fix one target, one intrinsics and small perturbations; unequal observation sizes, both-moving mounts, noise optimality and the refusal are not swept.',
 [OS+'extrinsic_hand_eye.cpp',OI+'extrinsic_hand_eye.h'],[('hand-eye cost functors, behind-camera guard','extrinsic_hand_eye.cpp')],['ExtrinsicHandEyeResult','OptimizationException'])
p('C05','Joint multi-camera calibration recovers every camera and the target',
 'For any number of static cameras with their own intrinsics, and any per-camera sets of wrist poses and images (of different sizes, or with no images for some views), the moving-target calibration started near the truth converges to the true base-to-camera transform of each camera, returned in the input order, and the true wrist-to-target transform. With noise the result is a local optimum of the total squared error over every correspondence of every image of every camera. The number of returned cameras equals the number given.',
 ['inputs','configurations'],'1..N cameras, per-camera image counts, intrinsics, guesses, noise',
 'The utest has fixed 2-camera scenes with identical data layout.',
 [OS+'extrinsic_multi_static_camera.cpp',OI+'extrinsic_multi_static_camera.h'],[('per-camera parameter blocks','extrinsic_multi_static_camera.cpp')],['result struct'])
p('C06','Camera-to-camera calibration solves cameras and target poses, fixing camera one',
 'Camera-only multi-camera calibration finds, for every image index, a base-to-target pose shared by all cameras and, for every camera, a base-to-camera pose that together are a local optimum of the total squared reprojection error; on noise-free data the relative camera poses and target poses are the true ones (up to a common base transform when no camera is fixed). When the first camera is fixed, its returned pose equals its given pose (up to rounding), and all others are solved relative to it. Results come back in input order with one entry per camera and per target pose.',
 ['inputs','configurations'],'2..N cameras, 1..M target poses, fixed or free first camera, guesses, noise',
 'No existing test exercises the camera-only optimiser beyond a fixed scene.',
 [OS+'extrinsic_multi_static_camera_only.cpp',OI+'extrinsic_multi_static_camera_only.h'],[('fix_first_camera','extrinsic_multi_static_camera_only.cpp')],['result struct'])
p('C07','Wrist-only calibration moves all cameras as one rigid group',
 'Calibrating a camera group with trusted relative camera poses returns base-to-camera poses whose relative transforms equal those of the given guesses (up to rounding), i.e. one common rigid correction is applied to all of them. On noise-free data whose guesses are the truth moved by one common transform, it recovers the true camera poses and wrist-to-target pose; with noise the result is a local optimum over that rigid correction and the wrist-to-target pose.',
 ['inputs','configurations'],'1..N cameras, wrist poses, common corrections, guesses, noise',
 'One fixed scene in the tests; rigidity of the group is not asserted.',
 [OS+'extrinsic_multi_static_camera_wrist_only.cpp',OI+'extrinsic_multi_static_camera_wrist_only.h'],[('single camera-group correction','extrinsic_multi_static_camera_wrist_only.cpp')],['result struct'])
p('C08','Multi-camera pose estimation fuses all cameras and reduces to single PnP',
 'Given any number of located cameras that see one target, multi-camera pose estimation started near the truth recovers the true base-to-target pose from noise-free images and, with noise, a local optimum of the total squared reprojection error over all cameras. With one camera placed at the base it agrees with single-view pose estimation, and moving the base frame moves the result accordingly.',
 ['inputs','configurations'],'1..N cameras with own intrinsics/poses, target poses, noise',
 'No unit test covers multi-camera PnP.',
 [OS+'multi_camera_pnp.cpp',OI+'experimental/multi_camera_pnp.h'],[('per-camera residuals','multi_camera_pnp.cpp')],['MultiCameraPnPResult'])
p('C09','Reported calibration costs are the true mean residual costs',
 'For every solver, the initial and final cost per observation it reports equal half the squared residuals summed over all measurements (in kinematic calibration also the prior terms of the joint offsets) and divided by the number of residuals, evaluated at the initial guess (in intrinsic calibration: the guessed camera without distortion and the pose estimated with it for each image) and at the returned solution respectively. The final cost is never greater than the initial one, and a solver that reports convergence has returned a stationary point of that cost, up to solver tolerances.',
 ['inputs','configurations'],'all solvers, all problems with finite residuals, noisy or not',
 'Tests only compare the reported cost with a fixed threshold near zero, where a wrong normalisation or wrong term is invisible.',
 [OS+'pnp.cpp',OS+'extrinsic_hand_eye.cpp',OS+'extrinsic_multi_static_camera.cpp',OS+'extrinsic_multi_static_camera_only.cpp',OS+'extrinsic_multi_static_camera_wrist_only.cpp',OS+'multi_camera_pnp.cpp',OS+'circle_fit.cpp',OS+'camera_intrinsic.cpp',OS+'dh_chain_kinematic_calibration.cpp'],
 [('initial_cost_per_obs / final_cost_per_obs','each optimize()')],['result structs'])
p('C10','Calibration results do not depend on data order, frame choice or prior calls',
 'For every solver: reordering observations, images or the correspondences inside them gives the same calibration; expressing all input poses in another base frame changes the results only by that frame change; scaling all lengths scales only the translations (not in kinematic calibration, whose prior on joint offsets is of fixed size). Calling a solver again with an equal problem gives an equal result whatever was solved in between, and a solver never modifies the problem it was given.',
 ['inputs','histories'],'all solvers, permutations, frame changes, unit changes, call interleavings',
 'No test relates two runs of a solver to each other.',
 [OS+'pnp.cpp',OS+'extrinsic_hand_eye.cpp',OS+'extrinsic_multi_static_camera.cpp',OS+'extrinsic_multi_static_camera_only.cpp',OS+'extrinsic_multi_static_camera_wrist_only.cpp',OS+'multi_camera_pnp.cpp',OS+'circle_fit.cpp',OS+'camera_intrinsic.cpp',OS+'dh_chain_kinematic_calibration.cpp'],
 [('residual assembly loops','each optimize()')],['result structs'])
p('C11','Intrinsic calibration recovers camera matrix and lens distortion',
 'From noise-free images of a known target taken from sufficiently diverse poses through a camera with radial and tangential distortion (k1, k2, p1, p2, k3 as in OpenCV), intrinsic calibration started from a reasonable guess recovers fx, fy, cx, cy and the distortion coefficients in that order, and returns the pose of the target in every image, in input order. With noise its final cost is no worse than that of the true parameters. Supplying starting poses for the targets, when requested, gives the same calibration. Images that do not determine a pose are left out instead of spoiling the calibration.',
 ['inputs'],'intrinsics, distortions, image sets, guesses, noise',
 'The intrinsic solver has no unit test.',
 [OS+'camera_intrinsic.cpp',OI+'experimental/camera_intrinsic.h'],[('distortion model and PnP initialisation','camera_intrinsic.cpp')],['IntrinsicEstimationResult'])
p('C12','Circle fitting returns the circle that best fits the points',
 'For any set of at least three distinct points lying on a circle of positive radius and a reasonable guess, circle fitting converges to that centre and radius; for noisy points the result is a local optimum of its fit. Translating, rotating or reordering the points moves the result accordingly, and the result radius is never negative. Both forms of the residual (circle given as one or as three parameters) are radius squared minus squared distance from the centre.',
 ['inputs'],'point sets, guesses, noise',
 'Only exercised through one covariance unit test on a fixed circle.',
 [OS+'circle_fit.cpp',OI+'circle_fit.h'],[('circle cost functor','circle_fit.cpp')],['CircleFitResult'])
p('C13','Covariance matrices are turned into correct std. deviations and correlations',
 'For any symmetric covariance matrix, the reported standard deviations are the square roots of its diagonal, the reported correlation of a pair is its covariance divided by both standard deviations (never NaN or infinite when a variance is zero; the standard deviations themselves are on the diagonal of the correlation matrix), and each named value is attached to the right parameter names with every unordered pair listed once. A non-square matrix or a wrong number of names is refused with a covariance error. Selecting correlations above a threshold returns exactly those whose magnitude exceeds it, in order of decreasing magnitude. The text forms list every entry.',
 ['inputs'],'all PSD matrices incl. zero variances, sizes 0..N, names, thresholds',
 'covariance_utest uses fixed small matrices with non-zero variance.',
 [OS+'covariance_analysis.cpp',OI+'covariance_analysis.h',OI+'covariance_types.h'],[('computeCovarianceResults, computeCorrelationsFromCovariance','covariance_analysis.cpp')],['CovarianceResult'])
p('C14','Solver covariance equals the inverse information matrix, correctly labelled',
 'For every solver that reports a covariance on a well-conditioned problem, the covariance matrix equals the inverse of the Gauss-Newton information matrix of its measurements at the returned solution, with rows in the order of the reported labels, and the labels name the right transform and axis. For general least-squares problems, parameters that are excluded by a mask are left out of the matrix and of the labels and the remaining entries are those of the unmasked covariance; wrong label counts and blocks that are not part of the problem are refused with a covariance error.',
 ['inputs','configurations'],'all solvers with covariance; random least-squares problems with several parameter blocks and masks',
 'Tests check only a few magnitudes / sizes on fixed problems.',
 [OS+'covariance_analysis.cpp',OS+'pnp.cpp',OS+'extrinsic_hand_eye.cpp',OS+'extrinsic_multi_static_camera.cpp',OS+'circle_fit.cpp',OS+'camera_intrinsic.cpp',OS+'dh_chain_kinematic_calibration.cpp'],[('computeCovariance','covariance_analysis.cpp'),('label construction','each optimize()')],['CovarianceResult'])
p('C15','DH-chain forward kinematics follows the classical DH convention',
 'For any chain of revolute and linear joints, with any base offset and any joint values, the forward kinematics equals the base offset followed by the product of Trans_z(d) Rot_z(theta) Trans_x(r) Rot_x(alpha), where the joint value adds to theta for revolute and to d for linear joints; with fewer joint values than joints the pose of the corresponding link is returned, and more values than joints or than offset rows is refused. Parameter offsets given at call time are equivalent to a chain built with those offsets, which otherwise keeps everything the original chain had (joint types, names, limits, base offset). The parameter table, joint types, labels and per-joint transforms describe the same chain, and automatic differentiation gives the derivative of the same function.',
 ['inputs','configurations'],'chains of 0..N joints, offsets, partial joint vectors',
 'dh_parameter_utest uses one robot (ABB 2400) and a positioner.',
 [OI+'dh_chain.h',OS+'dh_chain.cpp'],[('createRelativeTransform/getFK','dh_chain.h'),('offset constructor','dh_chain.cpp')],['return values'])
p('C16','Random joint poses respect each joint\'s limits and are reproducible',
 'Every randomly generated joint value lies within the limits of its joint, a random pose has one value per joint, values are uniform over the range of each joint and those of different joints are independent. A program that builds the same chain with the same explicit seeds draws the same poses again. The limits of one joint never affect another joint.',
 ['inputs','histories'],'limits, seeds, sampling histories',
 'The tests only use default limits and one fixed seed.',
 [OI+'dh_chain.h',OS+'dh_chain.cpp'],[('createRandomJointValue','dh_chain.cpp')],['return values'])
p('C17','Kinematic calibration respects masks and explains the measurements',
 'Kinematic calibration (2D camera or 6-DoF pose measurements) leaves every masked DH parameter and mount/base transform component exactly at its initial value, and on noise-free data with small true offsets, when it reports convergence, has reduced the measurement error to essentially zero, so that the returned chains and transforms reproduce every measurement. Parameter masks given as a table of booleans select exactly the corresponding parameters, a fully masked block is held constant, and an out-of-range (too large or negative) mask index is refused with an optimisation error. The prior on DH offsets penalises (value - mean)/stdev per parameter. The local step for quaternions turns the orientation by twice the step vector, keeps it of unit length and has finite, correct derivatives, also at a zero step.',
 ['inputs','configurations'],'chains, masks, offsets, measurements',
 'These sources cannot be built with the installed Ceres, so none of their tests run here; upstream they use fixed robots and masks.',
 [OI+'dh_chain_kinematic_calibration.h',OS+'dh_chain_kinematic_calibration.cpp',OI+'local_parameterization.h',OI+'maximum_likelihood.h'],[('masks','local_parameterization.h'),('costs','dh_chain_kinematic_calibration.h')],['KinematicCalibrationResult'])
p('C18','Saved calibration data loads back unchanged',
 'Writing any camera intrinsics, vectors, transforms, correspondence, observation, hand-eye problem or hand-eye result with the library\'s serialisation and reading it back (in memory, as text or through a file) gives an equal object, with transforms equal as rigid transforms and numbers to full double precision. A DH chain read from text has exactly the joints, parameters, types, names and base transform written there.',
 ['inputs'],'all finite values and all collection sizes (including empty)',
 'serialization_utest round-trips one fixed object per type; the result type is not round-tripped.',
 [OI+'serialization/eigen.h',OI+'serialization/types.h',OI+'serialization/problems.h'],[('YAML encode/decode','serialization/*.h')],['YAML text','decoded objects'])
p('C19','Malformed or incomplete calibration data is rejected, not misread',
 'Reading structured data whose fields are missing or of the wrong type, or (for intrinsics, correspondences, observations, problems and results) with a wrong number of fields, raises an error; it never crashes and never yields an object with missing values silently filled in. A rotation given as a quaternion of any non-zero finite length is read as the rotation it stands for (a rigid transform); one of zero or undefined length is refused. Well-formed data with its keys in a different order or number formatting is read the same.',
 ['inputs'],'arbitrary mutations of valid documents and arbitrary text',
 'No test feeds malformed documents.',
 [OI+'serialization/eigen.h',OI+'serialization/types.h',OI+'serialization/problems.h'],[('field-count checks and as<T>()','serialization/*.h')],['exceptions'])
p('C20','Homography check passes good planar data and flags bad correspondences',
 'For correspondences produced by any invertible projective map of a planar target (with the target and its origin at finite image positions), the homography error of every correspondence is zero (up to rounding) in input order, for every sampler whose points determine the map, and for both 2D images and 3D sensor data. If features that were not used to build the homography are displaced (in the image, or perpendicular to the axis of the 3D sensor), exactly their errors equal the displacement; errors are never negative. Too few correspondences for the sampling raise an error.',
 ['inputs','configurations'],'planar targets, homographies, samplers, displaced features',
 'homography_utest uses one grid with fixed defects.',
 [OS+'validation/homography_validation.cpp',OI+'validation/homography_validation.h'],[('homography solve and error','homography_validation.cpp')],['error vector','exceptions'])
p('C21','Correspondence samplers pick valid, distinct, documented indices',
 'The grid sampler picks for any grid size and stride the four corner elements\' first features; the random sampler picks exactly the requested number of distinct indices, all smaller than the number of correspondences, the same ones for the same seed on every call. Every index is equally likely over the seeds. Requests for fewer than four samples or for more samples than correspondences, and grids without four different corners or with fewer than eight elements, are refused.',
 ['inputs','configurations'],'all rows/cols/strides, counts, seeds',
 'Only a couple of fixed sizes are used in tests.',
 [OS+'validation/homography_validation.cpp',OI+'validation/homography_validation.h'],[('samplers','homography_validation.cpp')],['indices','exceptions'])
p('C22','3D projection error measures the distance on the target plane',
 'Intersecting any line with any non-parallel plane (both given by unit vectors) returns the point that lies on both, while a line parallel to the plane (to within the given epsilon) is refused. Back-projecting image points onto the target plane inverts camera projection for any pose and intrinsics, in input order. The 3D projection error of an observation is, per correspondence, the distance between the target feature and its back-projected image feature (zero for perfect data), and the error of a set of observations is the concatenation of the individual ones.',
 ['inputs'],'planes, lines, poses, intrinsics, observation sets',
 'No unit test covers these functions.',
 [OS+'validation/projection.cpp',OI+'validation/projection.h'],[('line-plane intersection, project3D, compute3DProjectionError','projection.cpp')],['return values','exceptions'])
p('C23','Noise statistics equal the sample statistics of the single-view poses',
 'The noise qualification of repeated views reports the component-wise mean and (population) standard deviation of the estimated positions, and a mean orientation that is a unit quaternion maximising agreement with all orientations, irrespective of quaternion signs and order, with the corresponding angular standard deviation (root of the sum of squared angular distances from that mean over one less than the number of views). Identical views give zero deviation around that pose, and views whose pose estimation did not converge do not influence the statistics. Rotating all inputs rotates the mean and leaves the deviation unchanged.',
 ['inputs'],'sets of quaternions/poses, signs, orders, noise',
 'noise_qualification_utest checks fixed seeds with loose tolerance.',
 [OS+'validation/noise_qualification.cpp',OI+'validation/noise_qualification.h'],[('quaternion mean, stats','noise_qualification.cpp')],['PnPNoiseStat'])
p('C24','Intrinsic-calibration validation is zero when perfect and detects errors',
 'For perfect observations with the true intrinsics, the virtual-target difference is zero in position and angle for any pose with a suitable guess, and the accuracy statistics over any observation set have zero mean and deviation; for imperfect data they equal the mean and (population) standard deviation over the individual differences. Observations with differing correspondence counts, an empty set, or a pose estimation that fails or exceeds the allowed squared error are refused with an exception.',
 ['inputs','configurations'],'observation sets, intrinsics, thresholds',
 'Only fixed scenes are tested.',
 [OS+'validation/camera_intrinsic_calibration_validation.cpp',OI+'validation/camera_intrinsic_calibration_validation.h'],[('virtual target split and statistics','camera_intrinsic_calibration_validation.cpp')],['return values','exceptions'])
p('C25','Targets define their geometry and match features to points by identity',
 'For any target definition the 3D points are those of its layout, with the right number per feature identity: for the modified circle grid rows by columns points in reading order (columns along x, the last row at y = 0, so that the large dot is the origin), for ArUco grids and ChArUco boards the corners as OpenCV defines the board. Matching detected features to the target pairs each image feature with the 3D point of the same identity and corner, for any subset of markers or board corners and for complete circle grids, losing and inventing none; incomplete circle grids and identities the target does not have are refused. Two target definitions compare equal exactly if their parameters are equal, and definitions read from configuration equal the ones built directly while incomplete or malformed configuration is refused.',
 ['inputs','configurations'],'target sizes, spacings, dictionaries, feature subsets',
 'Tests use two or three fixed boards.',
 [IS+'modified_circle_grid_target.cpp',IS+'aruco_grid_target.cpp',IS+'charuco_grid_target.cpp',II+'target.h'],[('createPoints/createCorrespondences','*_target.cpp')],['points','correspondences'])
p('C26','Circle-grid finder returns every dot at its place and identity or fails',
 'On any rendered image of a modified circle grid under rotation, scale, perspective and background (dots at least 4 pixels in radius and well separated, the origin dot clearly larger), the finder either throws an error or returns exactly rows x columns features, in an order in which each feature lies on the centre of the dot of the corresponding target point (so the large origin dot fixes the order), to sub-pixel accuracy; on clear images in mild perspective it does find the target. It never reports a grid of which dots are missing in the image. The same holds for grey and colour images and does not alter the input image.',
 ['inputs','configurations'],'grid sizes, poses, image types, detector parameters',
 'A few photographs are tested; orientation and ordering are not swept.',
 [IS+'modified_circle_grid_finder.cpp',IS+'circle_detector.cpp'],[('ordering by large dots','modified_circle_grid_finder.cpp')],['TargetFeatures','exceptions'])
p('C27','ArUco/ChArUco finders report only true corners of the board, also occluded',
 'On any rendered image of an ArUco grid or ChArUco board, rotated, scaled, in mild perspective or partly occluded, every reported feature has an identity that belongs to the board, and unless the occlusion touches it lies at the true image position of that corner (within a few pixels, in the right corner order); markers in the image that are not part of the target are not reported as its features. Clearly visible unoccluded boards are found completely, and an image without the board raises an error or yields no features.',
 ['inputs','configurations'],'boards, poses, occlusions, image types',
 'A few photographs are tested.',
 [IS+'aruco_finder.cpp',IS+'charuco_finder.cpp'],[('detection and refinement','aruco_finder.cpp, charuco_finder.cpp')],['TargetFeatures','exceptions'])
p('C28','Image routines are memory-safe, side-effect free and find plain circles',
 'For arbitrary images (any content, size and supported channel layout) and any accepted detector parameters, circle detection and target finding either return or throw a standard exception, without memory errors, with finite keypoints of positive size (inside the image when the colour filter is on); drawing features affects only the returned image and drawing reprojections only the given one, and drawing an incomplete circle grid is refused. Rendered separated discs on a plain background are each detected once at their centre, with the size, shape and colour filters respected.',
 ['inputs','configurations'],'random images, parameters, rendered disc scenes',
 'Tests never feed adversarial images or vary detector parameters.',
 [IS+'circle_detector.cpp',II+'circle_detector.h',II+'image_utils.h',IS+'aruco_finder.cpp'],[('CircleDetector filters and grouping','circle_detector.cpp')],['keypoints','exceptions'])
p('C29','Calibration data sets survive saving and loading, image to pose aligned',
 'A data set of 8-bit colour images and tool poses saved to a directory and parsed back (by any valid path) has the same number of entries in the same order, identical pixels and equal poses, each image still paired with its own pose. Saving that fails or cannot be complete is reported. Entries whose image or pose cannot be read are left out with a warning while the others stay paired and in order, and an unreadable or malformed list is not loaded. In multi-camera data sets, each observation set found is reported present, counted and returned for exactly the (camera, image) it belongs to, also when cameras have different numbers of images, and all others are reported absent.',
 ['inputs','histories'],'data sets of any size, values; sequences of insertions',
 'No test exercises the data set code (needs ROS).',
 [R+'src/data_set.cpp',R+'include/rct_ros_tools/data_set.h'],[('save/parse, index bookkeeping','data_set.cpp, data_set.h')],['files','returned objects'])
p('C30','Configuration loaders read exactly what the file or parameter server says',
 'Camera intrinsics, poses and target definitions loaded from files or parameters equal the values given (poses as the rigid transform of the given position and the rotation the given quaternion stands for). Any missing, mistyped or malformed entry, unreadable file or quaternion without length is reported as the documented failure (exception, or false with the output left unchanged) rather than returned as a default. Converting a parameter structure to YAML keeps every field, nesting level, type and value, and refuses what it cannot represent (arrays of mixed types, of arrays or of structures).',
 ['inputs'],'all values, key subsets, type mutations',
 'Needs ROS, never built here.',
 [R+'src/parameter_loaders.cpp',R+'src/loader_utils.cpp',R+'src/target_loader_plugins.cpp',R+'include/rct_ros_tools/parameter_loaders.h'],[('load* functions','parameter_loaders.cpp')],['return values','exceptions'])
p('C31','Printed results describe the transform and values they were given',
 'For any transform, the printed position, roll-pitch-yaw and quaternion describe that same transform (parsed back they reproduce it to the printed precision), the printed difference of two transforms gives their true distance and angle, and intrinsics and distortion values are printed under the right names. Cost reports print the root of the given values.',
 ['inputs'],'all transforms and value arrays',
 'No test covers the printing utilities.',
 ['rct_common/include/rct_common/print_utils.h'],[('formatting','print_utils.h')],['stdout text'])
p('C32','Data equality is exact: equal data compares equal, any real change differs',
 'Correspondences, observations, kinematic observations and measurements, intrinsics, calibration problems and target definitions compare equal to their copies, and unequal as soon as any single field, correspondence or element is changed beyond rounding (descriptive labels of problems excepted), symmetrically.',
 ['inputs'],'all data objects and all single-field mutations',
 'Equality is used by the tests as an oracle but never itself tested.',
 [OI+'types.h',OI+'extrinsic_hand_eye.h',IS+'modified_circle_grid_target.cpp'],[('operator==','types.h')],['return values'])
E='rct_examples/src/tools/'
p('C33','The hand-eye programs calibrate from all usable views and report the truth',
 'Run on a recorded data set, the camera-on-wrist and static-camera calibration programs solve the calibration over exactly the pictures in which the target is found and whose mean homography error is within the configured threshold, each paired with its own tool pose and the configured intrinsics and guesses; pictures that cannot be used are left out without affecting the others. They print the convergence, the costs and the transforms of that solution (the true ones for noise-free data), the mean, deviation, smallest and largest error of the features on the target plane, the mean and deviation of the differences to single-view estimates, and show the reprojections of each used picture on that picture. When a parameter is missing, malformed or of another type, the data set is missing or no picture is usable, they fail with a non-zero code and print no calibration.',
 ['inputs','configurations','fault_sequences'],'data sets, noise, pictures without target, bad or missing pictures and poses, parameter mutations',
 'The programs need ROS and are neither built nor run by any test.',
 [E+'camera_on_wrist_extrinsic.cpp',E+'static_camera_extrinsic.cpp',E+'hand_eye_calibration_analysis.h',R+'src/data_set.cpp'],[('main programs','camera_on_wrist_extrinsic.cpp, static_camera_extrinsic.cpp'),('analysis of the result','hand_eye_calibration_analysis.h')],['stdout','return code','displayed frames'])
p('C34','The multi-camera programs keep cameras, pictures and poses matched',
 'Run on one recorded data set per camera, the joint calibration uses every picture of every camera in which the target is found, with the tool pose of that picture, while the two-step calibration and the multi-camera pose estimation use the pictures that all cameras see. The printed transforms (base to each camera, camera 0 to each camera, wrist to target), costs and convergence are those of the calibration of exactly these observations (the true ones for noise-free data). For every analysed picture the reprojections before and after the multi-camera pose estimate, its costs and the difference between the two poses are reported under the number of that picture in the data set and shown on the picture of the first camera used. Missing or malformed parameters or data sets make the program fail with a non-zero code and without a result.',
 ['inputs','configurations','fault_sequences'],'numbers of cameras and pictures, patterns of visibility, noise, parameter mutations',
 'The programs need ROS and are neither built nor run by any test.',
 [E+'multi_static_camera_extrinsic.cpp',E+'multi_static_camera_multi_step_extrinsic.cpp',E+'solve_multi_camera_pnp.cpp',R+'include/rct_ros_tools/data_set.h'],[('main programs','multi_static_camera*.cpp, solve_multi_camera_pnp.cpp')],['stdout','return code','displayed frames'])
p('C35','The single-camera programs report what their pictures and parameters say',
 'On any set of pictures of which some do not show the target, the intrinsic calibration program prints the intrinsics, distortion and costs that calibration over exactly the pictures with target yields, and an independent calibration by OpenCV of the same data; the pose estimation program prints the pose of the target in its picture (estimated by the library and by OpenCV) with the cost of that pose; the noise qualification reports mean and deviation of the poses of all different pictures; and the intrinsic validation reports the mean and deviation of position and angle differences and calls the calibration valid exactly if mean plus two deviations are within 1 mm and 0.05 degrees. If parameters are missing or malformed, or no picture shows the target, the programs fail with a non-zero code.',
 ['inputs','configurations','fault_sequences'],'cameras, distortions, noise, visibility, parameter mutations',
 'The programs need ROS and are neither built nor run by any test.',
 [E+'intrinsic_calibration.cpp',E+'solve_pnp.cpp',E+'noise_qualification_2d.cpp',E+'camera_intrinsic_calibration_validation.cpp'],[('main programs','intrinsic_calibration.cpp, solve_pnp.cpp, noise_qualification_2d.cpp, camera_intrinsic_calibration_validation.cpp')],['stdout','log messages','return code'])
p('C36','Data collection stores pose and picture of the moment, in order, all or none',
 'Over any history of pictures, robot motions, collect and save requests, each successful collect request stores the latest picture that could be read together with the pose of the tool frame in the base frame at that moment, and one without picture or pose stores nothing and is answered with failure. Saving writes all pairs collected so far, in order, with unaltered pixels (8-bit colour; grey pictures as grey) and the right poses, and is answered with success exactly if it was written. Every readable picture is shown on the observer topic, with the target drawn if it is found, without altering what is stored. A start with a missing or malformed parameter or without a tool pose fails.',
 ['inputs','histories','fault_sequences'],'sequences of pictures in all encodings, pose updates and losses, collect and save requests, directories that cannot be written',
 'The node needs ROS and is neither built nor run by any test.',
 [R+'src/command_line_cal.cpp',R+'src/data_set.cpp'],[('collect and save services, picture callback','command_line_cal.cpp')],['files','service answers','published pictures'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
