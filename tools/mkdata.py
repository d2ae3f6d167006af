#!/usr/bin/env python3
"""Development tool: compose data/base.json from the data sets shipped with
ThermoFun (run once by hand; the result is committed, the checks never read
the repository's data files)."""
import json, glob, os
R='/repo/'
def load(f):
    d=json.load(open(R+f))
    if isinstance(d,list):
        g=lambda l:[x.get('properties',x) for x in d if x.get('_label')==l]
        return dict(substances=g('substance'),reactions=g('reaction'),elements=g('element'))
    return d
DB={k:load(v) for k,v in dict(
 psi='Resources/databases/psinagra-12-07-thermofun.json', aq17='Resources/databases/aq17-thermofun.json',
 her='Resources/databases/heracles-thermofun.json', mines='Resources/databases/mines16-thermofun.json',
 slop='Resources/databases/slop98-thermofun.json', cem='Resources/databases/cemdata18-thermofun.json',
 slopo='Resources/databases/slop98-organic-thermofun.json',
 tdb='pytests/PsiTDB2020-subset-thermofun.json', wat='Resources/databases/misc/water-thermofun.json',
 eng='pytests/test-thermoengine-thermofun.json', gem='pytests/test-aq17-gem-lma-thermofun.json',
 cocu='pytests/Reactions/Co_Cu_aq-thermofun.json', lk='pytests/Reactions/test-logKfT-thermofun.json').items()}
def S(db,sym): return json.loads(json.dumps(next(s for s in DB[db]['substances'] if s['symbol']==sym)))
def Rx(db,sym): return json.loads(json.dumps(next(s for s in DB[db]['reactions'] if s['symbol']==sym)))
subs={};reas={}
def add(db,sym,new=None,**ch):
    s=S(db,sym); s.pop('datasources',None)
    if new: s['symbol']=new
    for k,v in ch.items(): s[k]=v
    subs[s['symbol']]=s; return s
def addr(db,sym,new=None):
    s=Rx(db,sym); s.pop('datasources',None)
    if new: s['symbol']=new
    reas[s['symbol']]=s; return s
def meth(*ms): return [{"method":{str(a):b}} for a,b in ms]
# --- solvents: every water EoS x dielectric model, liquid and vapour
add('wat','H2O@'); add('wat','H2Og')
add('psi','H2O@','H2Owp')
add('gem','H2O@','H2Ohr')
add('psi','H2O@','H2Ozd',TPMethods=meth((33,'water_pvt_zhang_duan05'),(27,'water_diel_sverj14')))
add('psi','H2O@','H2Ofd',TPMethods=meth((29,'water_eos_hgk84_lvs83_gems'),(28,'water_diel_fern97')))
add('psi','H2O@','H2Ogj',TPMethods=meth((31,'water_eos_hgk84_reaktoro'),(26,'water_diel_jnort91_gems')))
add('her','H2O','H2Ov')
# --- aqueous solutes
for s in ['Al(OH)2+','Al(OH)4-']: add('aq17',s)
for s in ['Na+','Cl-','Ca+2','CO3-2','HCO3-','OH-']: add('psi',s)
add('aq17','H+'); add('tdb','PO4-3'); add('tdb','HPO4-2')
add('aq17','CH4@'); add('aq17','CO2@'); add('aq17','H2@')
add('psi','NpO2+2'); add('psi','PuO2+2'); add('cem','CaSiO3@')
# --- minerals
add('psi','Qtz'); add('psi','Cal'); add('psi','Hem'); add('psi','Sulfur')
add('aq17','Gibbsite'); add('aq17','Sillimanite'); add('aq17','Portlandite'); add('aq17','Corundum'); add('aq17','Quartz')
add('mines','Pyrrhotite'); add('slop','Fe-Ged'); add('psi','Melanterite'); add('cem','C12A7')
# --- gases: every gas EoS
add('aq17','CO2','CO2cork'); add('aq17','CH4','CH4cork'); add('mines','CO2','CO2prsv'); add('mines','CH4','CH4prsv')
for nm,k,mn in [('cgf',10,'fluid_churakov_gottschalk'),('srk',11,'fluid_soave_redlich_kwong'),('pr78',13,'fluid_peng_robinson78'),('stp',12,'fluid_sterner_pitzer')]:
    for sp in ['CO2','CH4']:
        if nm=='stp' and sp=='CH4': continue
        s=add('mines',sp,sp+nm)
        for m in s['TPMethods']:
            if '9' in m['method']: m['method']={str(k):mn}
# the Churakov & Gottschalk model with parameters it can work with (the ones above make it fail): molecular diameter,
# energy, dipole term, polarizability, and their temperature corrections
for sp,v in (('CO2',[3.69,235.5,0.3,2.91,0.02,-0.003,4.0,-0.004,0.1,20.0,0.05,10.0]),('CH4',[3.747,148.6,0,2.6,0,0,0,0,0,0,0,0])):
    s=add('mines',sp,sp+'cgr')
    for m in s['TPMethods']:
        if '9' in m['method']: m['method']={'10':'fluid_churakov_gottschalk'}; m['eos_gas_crit_props']['values']=v
add('her','NO(g)'); add('slopo','C6H6O'); add('her','O3(g)'); add('her','BaI(g)')
# --- reaction-defined substances
psir=['(NpO2)2(OH)2+2','CaCO3@','Ca(HCO3)+','NaCO3-','Soddyite']
psir=[s for s in psir if any(x['symbol']==s for x in DB['psi']['substances'])]
for s in psir+['H2Se(g)','HgHPO4(s)' ]:
    db='psi' if any(x['symbol']==s for x in DB['psi']['substances']) else 'tdb'
    x=add(db,s)
    if x.get('reaction') and any(r['symbol']==x['reaction'] for r in DB[db]['reactions']): addr(db,x['reaction'])
for db,rs in (('psi',['(NpO2)2CO3(OH)3-','Ni(CN)5-3']),('tdb',['H2PO4-','H3PO4(aq)']),('mines',['ZrF6-2','ZrF5-']),('eng',['Gedrite-Mg','H4SiO4@','Meionite-Ca','Tschermakite-Mg']),('lk',['NaHCO3@']),('cocu',['CoCl4-2','CoCl2@'])):
    for r in rs:
        y=addr(db,r)
        if any(x['symbol']==r for x in DB[db]['substances']) and r not in subs: add(db,r)
# closure over reactants
order=['psi','aq17','tdb','eng','gem','mines','cocu','lk','slop','her','cem']
missing=[]
for _ in range(3):
    for r in list(reas.values()):
        for a in r.get('reactants',[]):
            if a['symbol'] in subs: continue
            for db in order:
                if any(x['symbol']==a['symbol'] for x in DB[db]['substances']):
                    x=add(db,a['symbol'])
                    if x.get('reaction') and x['reaction'] not in reas and any(q['symbol']==x['reaction'] for q in DB[db]['reactions']): addr(db,x['reaction'])
                    break
            else: missing.append((r['symbol'],a['symbol']))
# --- purely "from reactants" reactions, incl. gases and reaction-defined reactants
def mk(sym,eq,**co):
    pass
def fr(sym,lst):
    reas[sym]={"symbol":sym,"reactants":[{"symbol":s,"coefficient":c} for s,c in lst],"Tst":298.15,"Pst":100000,"TPMethods":[]}
fr('R-dissol',[('Cal',-1),('Ca+2',1),('CO3-2',1)])
fr('R-gas',[('CO2prsv',-1),('CO2@',1)])
fr('R-gasmix',[('CO2cork',-1),('H2O@',-1),('HCO3-',1),('H+',1)])
fr('R-rdc',[('CaCO3@' if 'CaCO3@' in subs else psir[0],-1),('Ca+2',1),('CO3-2',1),('CO2srk',1)])
fr('R-qtz',[('Qtz',-1),('Quartz',1)])
fr('R-miss',[('Qtz',-1),('NoSuchSubstance',1)])
x=Rx('psi','Ni(CN)5-3')
# density-model reactions (parameters as published, coefficients only need to be plausible)
reas['R-dm']={"symbol":"R-dm","equation":"Qtz = SiO2@","reactants":[{"symbol":"Qtz","coefficient":-1},{"symbol":"Quartz","coefficient":1}],"Tst":298.15,"Pst":100000,
 "TPMethods":[{"method":{"14":"logk_dolejs_manning10"},"dr_dolejs_manning10_coeffs":{"values":[23.6,-52.4,0.0,0.0,-18.5]}}]}
reas['R-fm']={"symbol":"R-fm","reactants":[{"symbol":"NaCO3-" if "NaCO3-" in subs else "Na+","coefficient":1},{"symbol":"Na+","coefficient":-1},{"symbol":"CO3-2","coefficient":-1}],"Tst":298.15,"Pst":100000,
 "TPMethods":[{"method":{"9":"logk_marshall_frank78"},"dr_marshall_franck_coeffs":{"values":[-0.92,0,0,0,9.68,6.58,0]}}]}
elem={}
for db in ['psi','aq17','her','tdb','mines','slop']:
    for e in DB[db].get('elements',[]) or []:
        e=dict(e); e.pop('datasources',None); elem.setdefault(e['symbol'],e)
keep=set('Zz H O C N Na Cl Ca Mg Al Si S Fe P K F Zr Np Pu Ni Hg Co Cu Ba Se U'.split())
out={"thermodataset":"sim-base","elements":[elem[k] for k in sorted(elem) if k in keep],"substances":[subs[k] for k in sorted(subs)],"reactions":[reas[k] for k in sorted(reas)]}
json.dump(out,open('/verif/data/base.json','w'),indent=0,separators=(',',':'))
print(len(out['elements']),len(subs),len(reas),'missing',missing, os.path.getsize('/verif/data/base.json'))
print(sorted(subs)); print(sorted(reas))
