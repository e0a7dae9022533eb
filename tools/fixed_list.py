import os
import json,subprocess
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
m={'fc1b9f4':'C06','cb46b3e':'C06','df391a6':'C04','46575d7':'C05','44ed077':'C11','b258de5':'C11','5f4715c':'C09','ac0bb8b':'C09','4134a1a':'C10','c3dde9a':'C12','03c48b5':'C27','1f1fd07':'C27','7b8e756':'C07','27002a3':'C07','fc2e8ce':'C07','3131bc1':'C10','f6bb967':'C12','2fc2079':'C09','936321c':'C13','a504d11':'C17','aa07ab1':'C14','afa1f6d':'C17','f6ce34c':'C15','d8ef39e':'C16','7172580':'C15','d1f54e7':'C15','c39b503':'C15','3cd721d':'C17','9988aad':'C19','554fc8b':'C18','5a975aa':'C02','b6293be':'C03','239aaf7':'C03','a39a320':'C21','8edb4c8':'C21','ab559db':'C26','52b5af1':'C22','a879484':'C24','097eade':'C23','b86a85d':'C24','10d5091':'C24','d74bb12':'C25','7682909':'C03','f24ebb3':'C06','8655130':'C04','851f636':'C29','c278a92':'C29','8e78fa3':'C30','f8cc9d4':'C21','98e1bb0':'C13','9c57d08':'C13','49d127e':'C24','5fed3a5':'C25','f1a2b5d':'C10','d5d5831':'C10','6526990':'C09'}
what={'f1a2b5d':'the files of a creation that took more than two minutes were taken for orphans: counted in the size for good, and removed by a purge, which made the creation fail',
'd5d5831':'a file requested again after it was lost, or after a process was killed creating it, kept the date of its old entry and was evicted as soon as it was created',
'6526990':'a process killed while it removed a cached directory left a part of it, returned as the complete one later',
'5fed3a5':'processes that checked the index of a remote inventory at the same time failed with FileNotFoundError',
'49d127e':'an interrupted or parallel export of weights left a partial grid definition, which was used for all later exports of these coordinates',
'851f636':'the documentation pages of the inventory showed no matrix for any HEALPix source grid',
'c278a92':'the documentation pages of the inventory left out the area of grids that are not global, so the gridspec shown did not find the weights',
'8e78fa3':'tools/subset_remote_db.py and tools/merge_index.py imported a module that was moved, so neither could run',
'f8cc9d4':'Xarray data could not be regridded to a grid with a single row or column',
'98e1bb0':'every disk cache request in a process forked from one that had used the cache waited for ever',
'9c57d08':'a forked process that ended or changed the cache policy removed the temporary cache directory its parent was using',
'7682909':'weights that fill the memory cache limit exactly were thrown out again with policy lru or largest',
'f24ebb3':'ORCA grids of subtype W were rejected, although documented',
'8655130':'numpy numbers in a gridspec raised TypeError in the key of the in-memory weights',
'5a975aa':'the memory cache key left out the inventory, so weights of one inventory were used for another inventory holding the same grids and method',
'b6293be':'setting the memory cache limit to None with policy lru or largest raised TypeError on the next regrid',
'239aaf7':'a matrix that can never fit evicted all cached matrices before being used uncached',
'a504d11':'setting the memory cache limit to 0 raised after saving it, and the package could not be imported afterwards',
'afa1f6d':'a rejected item of config.set() with several items left the earlier items set',
'f6ce34c':'Path and numpy values in the config produced a file that could not be read back',
'd8ef39e':'EARTHKIT_REGRID_CHECK_OUT_OF_DATE_URLS=False enabled the check',
'7172580':'one unusable item in the config file prevented the import of the package',
'd1f54e7':'the umask stayed changed when the config directory could not be created',
'c39b503':'a kill or full disk while saving left an empty or partial config file',
'3cd721d':'bytes() and friends raised for negative sizes',
'9988aad':'nearest_method, distance, distance_tolerance, nclosest and further options did not reach MIR from the array interface; the default automatic, names with underscores and whole-number distances were rejected from the GRIB interface',
'554fc8b':'arrays that are not contiguous native floats were rejected by the MIR backend',
'aa07ab1':'an observer raising on entering a temporary config left that config active',
'a39a320':'values regridded from Xarray variables of an integer type were truncated to integers',
'8edb4c8':'variables of an Xarray Dataset whose dimensions are in another order than those of the Dataset were rejected or mixed up',
'ab559db':'a missing in_grid or out_grid was not rejected with ValueError by the array, GRIB message and legacy interfaces',
'52b5af1':'regridding an empty FieldList with precomputed weights gave a list that raised on use',
'a879484':'mir_cached_matrix_to_file with a Path wrote nothing usable',
'097eade':'truncated or damaged MIR matrix files were read as other matrices',
'b86a85d':'two definitions of unstructured grids could get the same hash: digits beyond the printed ones were left out',
'10d5091':'mir_make_matrix(output=None) raised',
'd74bb12':'threads asking one URL inventory for different weights failed with FileNotFoundError while the index was downloaded again',
}
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    out.append(f"fixed: property={m[h]} {h} {what.get(h,s[5:])}")
json.dump({"findings":[],"fixed":out},open(''+ROOT+'/known_findings.json','w'),indent=1)
