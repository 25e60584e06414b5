import json,subprocess
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
pid={"all frequencies":"C02","small values in 8-bit":"C12","slow linear parts":"C23","plan 3D":"C14","count equiv":"C16","do not carry":"C17","number the rows":"C10","one-node":"C10","refuse to store a 2D":"C09","load NaN":"C09",
"parse the factors":"C01","whitespace":"C01","keep fields explicit":"C02","match equations":"C01","own brick":"C03","before the fields":"C04","only let constant":"C01","empty terms":"C01","advance the time":"C06","stages of a RK4":"C05","SetFloat":"C03","vary with":"C02","frequencies of the dimension":"C02","move every field":"C21","reflect the force":"C21","implicit Euler scheme":"C23","second equation":"C01","signs without":"C01","do not vanish":"C02","could not be completed":"C19","maximum to 255":"C12","extents of 3D":"C12","same second":"C11","comments of the simulation itself":"C11","no comment to update":"C11","break long comments":"C11","its ID is zero":"C11","value of text attributes":"C11","timestep of time series":"C11","show NaN":"C11","export type fielddata":"C11","CubicMaterial":"C20","PerturbedForce":"C20","strain energy command":"C20","registered in a model":"C22","prefactor to the non-linear":"C22","off-diagonal coefficients":"C22","negative value penalty":"C22","gradients of an advection":"C22","one up to date gradient":"C22","read the same when joined":"C22","have their own functions":"C22","DivGrad term real":"C22","mixed derivatives in the Hessian":"C22","order in which the conductivity":"C22","elastic term with the current":"C22","real strains":"C22","that are not symmetric":"C24","chosen with --data":"C26","contour plots at their":"C26","blanks after commas":"C26"}
d=json.load(open('/verif/known_findings.json'))
d['fixed']=[]
for h,s in reversed(log):
    if s.startswith('fix:'):
        p=[v for k,v in pid.items() if k in s]
        assert len(p)==1,(s,p)
        d['fixed'].append("fixed: property=%s %s %s"%(p[0],h,s[5:]))
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
