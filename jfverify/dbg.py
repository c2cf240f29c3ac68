import sys,build,registry,check,importlib,kernel
def get(specmod,filt):
    b=build.build_all(); regs=registry.enumerate_registry(b['so'])
    js=check.jobs_for(b,regs,specmod,5000,filt,True)
    return js
def kc(j):
    sym,fn,mod,reg,sm,to,v=j
    m=importlib.import_module('specs.'+sm)
    return kernel.KernelCheck(fn,mod,reg,m.contract(reg),getattr(m,'boundary',lambda:None)(),to,print)
def pp(fn):
    for b in fn['blocks']:
        print(b['id']+':')
        for i in b['ins']: print('   ',{k:v for k,v in i.items() if k not in('dn','ots','op')},i['op'])
