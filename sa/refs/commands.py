"""Options of the commands as documented by their help texts:
kind names > destination : type *values = default."""

TABLE = {
    'average': '''
        argument base > base : str *1 = None
        argument output > output : str *1 = None
        argument group > group : IntRange(1,None) *1 = None
        option --combine > combine : OptIntParamType *2 = (None, None)
        option --supersample > supersample : OptIntParamType *1 = None
        option --recenter > recenter : Choice(com,left,none,right) *1 = 'none'
        option --rolling/--norolling > rolling : flag *1 = False
        option --floor > floor : float *1 = None
        option -co --cutoff > cutoff : float *1 = 0
        option -cb --cutoff_bins > cutoff_bins : int *1 = 1
        option -cr --cutoff_radius > cutoff_radius : float *1 = 1
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
    ''',
    'convert': '''
        argument base > base : str *1 = None
        argument output > output : str *1 = None
        option --ftype > ftype : Choice(gmx,simple,simple_plain) *1 = 'gmx'
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
    ''',
    'spreading collect': '''
        argument base > base : str *1 = None
        argument floor > floor : float *1 = None
        option -o --output save > save : Path() *1 = 'spread.xvg'
        option --nooutput > nooutput : flag *1 = False
        option -dt --delta_t dt > dt : float *1 = 1
        option -co --cutoff > cutoff : float *1 = None
        option -cr --cutoff_radius > cutoff_radius : float *1 = 1
        option -cb --cutoff_bins > cutoff_bins : int *1 = 1
        option -t0 --time_init t0 > t0 : float *1 = 0
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
        option -v --verbose > verbose : flag *1 = False
    ''',
    'spreading view': '''
        argument files > files : Path(exists) *-1 = None
        option -t --tau > tau : float *1 = 1
        option -r --radius R > R : float *1 = 1
        option -rs --sync_radius > sync_radius : float *1 = None
        option -o --save_fig > save_fig : Path() *1 = None
        option -x --save_xvg > save_xvg : Path() *1 = None
        option --show/--noshow > show : flag *1 = True
        option --loglog > loglog : flag *1 = False
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Droplet spreading'
        option --xlabel > xlabel : str *1 = 'Time (ps)'
        option --ylabel > ylabel : str *1 = 'Radius (nm)'
    ''',
    'spreading fit': '''
        argument files > files : Path(exists) *-1 = None
        option --lims > lims : OptFloatParamType *2 = (None, None)
        option --out_lims > out_lims : OptFloatParamType *2 = (None, None)
        option -o --save_fig > save_fig : Path() *1 = None
        option -x --save_xvg > save_xvg : Path() *1 = None
        option --print/--noprint > print : flag *1 = True
        option --show/--noshow > show : flag *1 = True
        option --loglog > loglog : flag *1 = False
        option --legend/--nolegend > legend : flag *1 = True
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Droplet spreading with fit'
        option --xlabel > xlabel : str *1 = 'Time (ps)'
        option --ylabel > ylabel : str *1 = 'Radius (nm)'
    ''',
    'interface collect': '''
        argument base > base : str *1 = None
        argument output > output : str *1 = None
        option --recenter > recenter : Choice(com,off,zero) *1 = 'zero'
        option -co --cutoff > cutoff : float *1 = None
        option -cr --cutoff_radius > cutoff_radius : float *1 = 1
        option -cb --cutoff_bins > cutoff_bins : int *1 = 1
        option --ylim ylims > ylims : OptFloatParamType *2 = (None, None)
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
    ''',
    'interface view': '''
        argument base > base : str *1 = None
        option -av --average > average : IntRange(1,None) *1 = 1
        option -o --save_fig > save_fig : str *1 = None
        option -x --save_xvg > save_xvg : Path() *1 = ''
        option --show/--noshow > show : flag *1 = True
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Droplet interface'
        option --xlabel > xlabel : str *1 = 'x (nm)'
        option --ylabel > ylabel : str *1 = 'y (nm)'
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.xvg'
        option --extfig > extfig : str *1 = '.png'
    ''',
    'interface sample': '''
        argument base > base : str *1 = None
        argument variable > variable : Choice(area,length) *1 = None
        option -o --save_fig > save_fig : str *1 = None
        option -x --save_xvg > save_xvg : Path() *1 = ''
        option -dt --delta_t > delta_t : float *1 = 1
        option --show/--noshow > show : flag *1 = True
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Droplet interface'
        option --xlabel > xlabel : str *1 = 't (ps)'
        option --ylabel > ylabel : str *1 = None
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.xvg'
        option --extfig > extfig : str *1 = '.png'
    ''',
    'interface angle': '''
        argument base > base : str *1 = None
        option --fit/--nofit > fit : flag *1 = False
        option -h --height > height : OptFloatParamType *1 = None
        option -dt --delta_t > delta_t : float *1 = 1
        option -o --save_fig > save_fig : str *1 = None
        option -x --save_xvg > save_xvg : Path() *1 = None
        option --show/--noshow > show : flag *1 = False
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Contact angles'
        option --xlabel > xlabel : str *1 = 't (ps)'
        option --ylabel > ylabel : str *1 = 'angle (deg.)'
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.xvg'
    ''',
    'contact_line collect': '''
        argument base > base : str *1 = None
        argument output > output : str *1 = None
        option -av --average > average : IntRange(1,None) *1 = 1
        option --rolling/--norolling > rolling : flag *1 = False
        option --recenter/--norecenter > recenter : flag *1 = True
        option --fuse/--nofuse > fuse : flag *1 = False
        option --floor > floor : float *1 = None
        option -ea --extract_area > extract_area : float *2 = (1, 1)
        option -eh --extract_height > extract_height : float *1 = 0
        option -co --cutoff > cutoff : float *1 = None
        option -cr --cutoff_radius > cutoff_radius : float *1 = 1
        option -cb --cutoff_bins > cutoff_bins : int *1 = 1
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
    ''',
    'contact_line sample': '''
        argument base > base : str *1 = None
        argument labels > labels : str *-1 = None
        option -av --average > average : IntRange(1,None) *1 = 1
        option --rolling/--norolling > rolling : flag *1 = False
        option --recenter/--norecenter > recenter : flag *1 = True
        option --floor > floor : float *1 = None
        option -ea --extract_area > extract_area : float *2 = (0, 0)
        option -eh --extract_height > extract_height : float *1 = 0
        option -dt --delta_t dt > dt : float *1 = 1
        option --process > process : Choice(mean,sum) *1 = 'mean'
        option -co --cutoff > cutoff : float *1 = None
        option -cr --cutoff_radius > cutoff_radius : float *1 = 1
        option -cb --cutoff_bins > cutoff_bins : int *1 = 1
        option --save > save : str *1 = None
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
    ''',
    'view contour': '''
        argument files > files : Path(exists) *-1 = None
        option -o --save_fig > save_fig : Path() *1 = None
        option -l --label > label : Choice(M,N,T,U,V,flow) *1 = 'M'
        option -n --num_contours > num_contours : int *1 = 10
        option -lv --levels contour_levels > contour_levels : ListFloatValsParamType *1 = None
        option -c --colours contour_colours > contour_colours : ListStrsParamType *1 = None
        option --filled > filled : flag *1 = False
        option --vlim > vlim : OptFloatParamType *2 = (None, None)
        option --colourbar/--nocolourbar colorbar > colorbar : flag *1 = False
        option --cbarlabel > cbarlabel : str *1 = None
        option --cbarticks > cbarticks : ListFloatValsParamType *1 = None
        option --cbarticklabels > cbarticklabels : ListStrsParamType *1 = None
        option -cmap --colourmap colormap > colormap : str *1 = 'viridis'
        option --show/--noshow > show : flag *1 = True
        option --transparent/--notransparent > transparent : flag *1 = False
        option --noaxis > noaxis : bool *1 = 0
        option --dims > dims : OptFloatParamType *2 = None
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Droplet contours'
        option --xlabel > xlabel : str *1 = 'x (nm)'
        option --ylabel > ylabel : str *1 = 'y (nm)'
    ''',
    'view height': '''
        argument files > files : Path(exists) *-1 = None
        option -o --save_fig > save_fig : Path() *1 = None
        option -l --label > label : Choice(M,N,T,U,V,evaporation,flow,visc_diss) *1 = 'M'
        option --clim > clim : OptFloatParamType *2 = (None, None)
        option --vlim > vlim : OptFloatParamType *2 = (None, None)
        option -cl --cutoff_label > cutoff_label : Choice(M,N,None,T,U,V,flow,visc) *1 = None
        option -co --cutoff > cutoff : float *1 = None
        option --colourbar/--nocolourbar colorbar > colorbar : flag *1 = True
        option -cmap --colourmap colormap > colormap : str *1 = 'viridis'
        option --cbarlabel > cbarlabel : str *1 = None
        option --cbarticks > cbarticks : ListFloatValsParamType *1 = None
        option --cbarticklabels > cbarticklabels : ListStrsParamType *1 = None
        option --transparent/--notransparent > transparent : flag *1 = False
        option --show/--noshow > show : flag *1 = True
        option --noaxis > noaxis : bool *1 = 0
        option --dpi > dpi : int *1 = 150
        option --dims > dims : OptFloatParamType *2 = None
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --drawaxes/--nodrawaxes drawaxes > drawaxes : flag *1 = True
        option --title > title : str *1 = 'Droplet height map'
        option --xlabel > xlabel : str *1 = 'x (nm)'
        option --ylabel > ylabel : str *1 = 'y (nm)'
    ''',
    'view flow': '''
        argument files > files : Path(exists) *-1 = None
        option -o --save_fig > save_fig : Path() *1 = None
        option -co --cutoff > cutoff : float *1 = None
        option -cl --colour_label colour > colour : Choice(M,N,None,T,U,V,evaporation,flow,radial,visc) *1 = 'T'
        option --scale > scale : float *1 = 1
        option --width > width : float *1 = 3/2000
        option --pivot > pivot : Choice(middle,tail,tip) *1 = 'middle'
        option --streamlines/--nostreamlines > streamlines : flag *1 = False
        option --vlim > vlim : OptFloatParamType *2 = (None, None)
        option --colourbar/--nocolourbar colorbar > colorbar : flag *1 = False
        option --cbarlabel > cbarlabel : str *1 = None
        option --cbarticks > cbarticks : ListFloatValsParamType *1 = None
        option --cbarticklabels > cbarticklabels : ListStrsParamType *1 = None
        option -cmap --colourmap colormap > colormap : str *1 = 'viridis'
        option --show/--noshow > show : flag *1 = True
        option --transparent/--notransparent > transparent : flag *1 = False
        option --noaxis > noaxis : bool *1 = 0
        option --dpi > dpi : int *1 = 150
        option --dims > dims : OptFloatParamType *2 = None
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option --title > title : str *1 = 'Droplet height map'
        option --xlabel > xlabel : str *1 = 'x (nm)'
        option --ylabel > ylabel : str *1 = 'y (nm)'
    ''',
    'sample': '''
        argument base > base : str *1 = None
        argument labels > labels : str *-1 = None
        option -o --output > output : Path() *1 = 'sample.xvg'
        option -dt --delta_t dt > dt : float *1 = 1
        option --process > process : Choice(mean,sum) *1 = 'mean'
        option -co --cutoff > cutoff : float *1 = None
        option -cl --cutoff_label > cutoff_label : str *1 = None
        option -fl --floor slip_floor > slip_floor : float *1 = 0
        option --show/--noshow verbose > verbose : flag *1 = True
        option --xlim > xlim : OptFloatParamType *2 = (None, None)
        option --ylim > ylim : OptFloatParamType *2 = (None, None)
        option -b --begin > begin : IntRange(0,None) *1 = 1
        option -e --end > end : IntRange(0,None) *1 = None
        option --ext > ext : str *1 = '.dat'
    ''',
}
