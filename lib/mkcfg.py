# Generates the TLC configurations of the session specification.
import os
HERE=os.path.dirname(os.path.abspath(__file__)); OUT=os.path.join(HERE,'..','spec')
ALL='{"comm","blind","vblind","vdim","vfirst","vlast","mulconst","mulcoef","const","coef","drop","dup","var","late","fixconst","zconst","zdrop","label","vgate"}'
EX='{"exact"}'; K6='{"zcon","zmul","zalloc","zgate","nop","err"}'; K5='{"zcon","zmul","zalloc","zgate","nop"}'
def session(name,**k):
    d=dict(MaxOps=3,VecDims='{0,1,3}',MaxVecs=3,MaxScalars=3,MaxGates=3,MaxCons=3,Devs='{}',AllowBad='FALSE',MaxDefer=2,
           Kinds=K5,Mix='FALSE',Caps=EX,VCaps=EX,MinEmit=0); d.update(k)
    with open(os.path.join(OUT,'R1csSession_%s.cfg'%name),'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n'+''.join('  %s = %s\n'%(a,b) for a,b in d.items()))
        f.write('INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit\nCHECK_DEADLOCK FALSE\n')
session('ex2',MaxOps=2,Devs='{"missing"}',Kinds=K6,Mix='TRUE')
session('ex3',MaxOps=3,Devs='{"missing"}',Kinds=K6,Mix='TRUE')
session('ex4',MaxOps=4,MaxGates=2,VecDims='{0,2}')
session('long',MaxOps=16,VecDims='{0,1,2,3,5,9}',MaxVecs=4,MaxScalars=4,MaxGates=9,MaxCons=8,MaxDefer=3,VCaps='{"big"}',MinEmit=6)
session('huge',MaxOps=60,VecDims='{1,17,33}',MaxVecs=3,MaxScalars=6,MaxGates=40,MaxCons=12,MaxDefer=4,VCaps='{"big"}',MinEmit=30)
session('vecs',MaxOps=24,VecDims='{0,1,2,3}',MaxVecs=17,MaxScalars=1,MaxGates=2,MaxCons=2,MaxDefer=1,Kinds='{"zcon","nop"}',MinEmit=7)
session('vecs17',MaxOps=24,VecDims='{0,1,2,3}',MaxVecs=17,MaxScalars=1,MaxGates=2,MaxCons=2,MaxDefer=1,Kinds='{"zcon","nop"}',MinEmit=22)
session('dev1',MaxOps=1,VecDims='{0,2}',MaxVecs=2,MaxScalars=2,MaxGates=2,MaxCons=2,Devs=ALL,AllowBad='TRUE',MaxDefer=1)
session('dev2',MaxOps=2,VecDims='{0,2}',MaxVecs=2,MaxScalars=2,MaxGates=2,MaxCons=2,Devs=ALL,AllowBad='TRUE',MaxDefer=1)
session('dev3',MaxOps=3,VecDims='{0,2}',MaxVecs=2,MaxScalars=2,MaxGates=2,MaxCons=2,Devs=ALL,AllowBad='TRUE',MaxDefer=1)
session('dev',MaxOps=12,VecDims='{0,1,2,3,5}',MaxVecs=4,MaxScalars=3,MaxGates=6,MaxCons=8,Devs=ALL,AllowBad='TRUE',MinEmit=4)
session('caps1',MaxOps=1,VecDims='{0,1,3,5}',MaxVecs=2,MaxScalars=1,MaxGates=2,MaxCons=1,MaxDefer=1,Caps='{"exact","big","short"}',VCaps='{"exact","big","short"}')
session('caps2',MaxOps=2,VecDims='{0,1,3,5}',MaxVecs=2,MaxScalars=1,MaxGates=2,MaxCons=1,MaxDefer=1,Caps='{"exact","big","short"}',VCaps='{"exact","big","short"}')
session('caps',MaxOps=9,VecDims='{0,1,3,5}',MaxVecs=2,MaxScalars=1,MaxGates=9,MaxCons=1,MaxDefer=2,Caps='{"exact","big","short"}',VCaps='{"exact","big","short"}',MinEmit=3)
def cfg(mod,name,consts,invs):
    with open(os.path.join(OUT,'%s_%s.cfg'%(mod,name) if name else mod+'.cfg'),'w') as f:
        f.write('SPECIFICATION Spec\n')
        if consts: f.write('CONSTANTS\n'+''.join('  %s %s%s\n'%(a,'' if str(b).startswith('<-') else '= ',b) for a,b in consts.items()))
        f.write('INVARIANTS %s\nCHECK_DEADLOCK FALSE\n'%invs)
I='OriginalParses Injective Emit'
cfg('ProofWire','one',dict(MaxMut=1,Compound='TRUE'),I)
cfg('ProofWire','two',dict(MaxMut=2,Compound='TRUE'),I)
cfg('ProofWire','three',dict(MaxMut=3,Compound='TRUE'),I)
cfg('Degrees','',{},'Consistent Emit')

BD='{"X","B","Bb","G0","Gl","H0","Hl","bad"}'; BI='WeightsDecide Emit'
cfg('Batch','one',dict(Shapes='{1,2,4,8,16}',Kinds='{"scalar","vec","mixed","phase2"}',Dirs=BD,MaxCoef=2,MaxMembers=1,MinEmit=1,Field=5),BI)
cfg('Batch','two',dict(Shapes='{1,2,4,16}',Kinds='{"scalar","mixed"}',Dirs=BD,MaxCoef=1,MaxMembers=2,MinEmit=2,Field=5),BI)
cfg('Batch','pair2',dict(Shapes='{1,4}',Kinds='{"vec"}',Dirs=BD,MaxCoef=3,MaxMembers=2,MinEmit=2,Field=7),BI)
cfg('Batch','three',dict(Shapes='{2,8}',Kinds='{"scalar"}',Dirs='{"X","B","Gl","H0","bad"}',MaxCoef=2,MaxMembers=3,MinEmit=3,Field=5),BI)
cfg('Batch','many',dict(Shapes='{1,2,4,8,16}',Kinds='{"scalar","vec","mixed","phase2"}',Dirs=BD,MaxCoef=2,MaxMembers=9,MinEmit=3,Field=5),BI)
cfg('Batch','honest',dict(Shapes='{1,2,4,8,16}',Kinds='{"scalar","vec","phase2"}',Dirs='{}',MaxCoef=0,MaxMembers=9,MinEmit=2,Field=5),BI)
cfg('BatchWeights','',dict(Q=43),'Rare Emit')
cfg('VerifEq','',{},'Emit')
cfg('Transcript','',{},'StagesGrow Emit')

ALLC='{'+','.join(str(i) for i in range(65))+'}'
def gens(name,**k):
    d=dict(Caps='{0,1,2,3,5,8,33,64}',Parties='{1,2,4}',MaxOps=3,MinEmit=1,Queries='FALSE'); d.update(k)
    with open(os.path.join(OUT,'Generators_%s.cfg'%name),'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n'+''.join('  %s = %s\n'%(a,b) for a,b in d.items())+'INVARIANT Emit\nPROPERTY NeverShrinks\nCHECK_DEADLOCK FALSE\n')
gens('ex')
gens('grid',Caps=ALLC,Parties='{1,3}',MaxOps=2,MinEmit=2)
gens('sim',Caps=ALLC,Parties='{0,1,2,3,4}',MaxOps=12,MinEmit=5,Queries='TRUE')
gens('big',Caps='{0,1,63,100,255,256,257,1000}',Parties='{1,2}',MaxOps=5,MinEmit=3,Queries='TRUE')

TI='RightShape RootBinds Emit'
PAT='{"distinct","same","alternate"}'
def build(name,**k):
    d=dict(Ls='{2,3,4}',Ms='{1,2}',Sizes='{1,2,3,4,5}',Wants='{0,1,2,3,4}',Patterns=PAT,MaxTrees=1,MinEmit=1); d.update(k)
    cfg('TreeBuild',name,d,TI)
build('one',Sizes='{'+','.join(map(str,range(1,28)))+'}',Ms='{1,2}',Wants='{0,2,3,6}')
build('two',Sizes='{1,2,3,4,5,8,9}',Ms='{1}',Wants='{0,3}',MaxTrees=2,MinEmit=2)
build('m3',Ls='{2,3}',Ms='{3}',Sizes='{1,2,3,4,5,8,9,10}',Wants='{0,1,4}',MaxTrees=2)
build('sim',Sizes='{'+','.join(map(str,range(1,41)))+'}',Wants='{0,1,2,3,4,5,6}',MaxTrees=5,MinEmit=3)
build('big',Ls='{2,3,4,8}',Ms='{1}',Sizes='{63,64,65,80,81,82,255,256,257}',Wants='{0,4,9}',Patterns='{"distinct"}',MaxTrees=1)

MI='Sound Complete Emit'
STR='{"child","siblings","stop","deeper","cancel"}'
ALT='{"rerun","otherrun","random","identity","negate","shift","move","swap","drop","dup","push","mix","mixother"}'
OTH='{"leaf","other","grow","raise","raise2","turn"}'
def member(name,**k):
    d=dict(Ls='{2,3}',Ms='{1}',Apis='{"single"}',Sizes='{1,2,3,4,5}',Wants='{0,3}',Patterns='{"distinct"}',Strategies='{}',Alts='{}',Others='{}',AllIndices='TRUE',MaxHeight=4); d.update(k)
    cfg('Member',name,d,MI)
member('paths',Ls='{2,3,4}',Sizes='{1,2,3,4,5,7,8,9,10,13,16,17}',Wants='{0,1,2,3,5}',Patterns='{"distinct","same"}',MaxHeight=5)
member('attack',Sizes='{1,2,3,4,5,6}',Wants='{0,3,4}',Patterns='{"distinct","craft"}',Strategies=STR,AllIndices='FALSE',Ms='{1}')
member('alter',Sizes='{1,3,5,9}',Wants='{0,2,4}',Alts=ALT,Others=OTH,AllIndices='FALSE')
member('batch2',Apis='{"batch"}',Ms='{1,2}',Sizes='{1,2,3,4,5}',Wants='{0,3}',MaxHeight=3)
member('batch3',Apis='{"batch"}',Ms='{3,4}',Ls='{2}',Sizes='{1,3,5}',Wants='{0,4}',AllIndices='FALSE')
member('battack',Apis='{"batch"}',Ms='{2,3}',Ls='{2}',Sizes='{1,2,3,5}',Wants='{0,3}',Patterns='{"distinct","craft"}',Strategies=STR,AllIndices='FALSE')
member('balter',Apis='{"batch"}',Ms='{1,2,3}',Ls='{2,3}',Sizes='{1,3,5}',Wants='{0,4}',Alts=ALT,Others=OTH,AllIndices='FALSE')

WI='OriginalParses Injective Emit'
SG='{"owners","thief","zero","crossed"}'; CX='{"domain","otherleaf","extended","raised","salt","generator","rebuilt"}'
cfg('TxWire','codec',dict(MaxMut=1,Kinds='{"path","even","odd","pour","tx"}',Signers='{}',Contexts='{}',Splices='FALSE'),WI)
cfg('TxWire','codec2',dict(MaxMut=2,Kinds='{"path","even","odd","pour","tx"}',Signers='{}',Contexts='{}',Splices='TRUE'),WI)
cfg('TxWire','tx',dict(MaxMut=1,Kinds='{"tx"}',Signers=SG,Contexts=CX,Splices='TRUE'),WI)
cfg('TxWire','tx2',dict(MaxMut=2,Kinds='{"tx"}',Signers=SG,Contexts='{}',Splices='TRUE'),WI)
LI='Conserved InRange Owned Once Emit'
FORMS='{"sk","key","keyonly","neg","shift","value","place","rand","tag"}'
def ledger(name,**k):
    d=dict(Owners='{1,2}',Sums='<- Edges',Deltas='<- Off',Firsts='<- Edges',Forms='{}',Raws='<- Empty',Widths='{64}',Thefts='{}',Coins0=2,MaxPours=1,Heights='{1}',Branching='{2}',Mints='FALSE',Receivers='{1}'); d.update(k)
    cfg('Ledger',name,d,LI)
ledger('sums',Owners='{1}')
ledger('raw',Owners='{1}',Deltas='<- None',Firsts='<- Few',Raws='<- Big',Widths='{0,63,64,65,66,128,255,1000}',Sums='<- Few')
ledger('mint',Owners='{1}',Deltas='<- None',Firsts='<- Few',Sums='<- Few',Raws='<- Big',Widths='{0,63,64,65,66,128,255,1000}',Mints='TRUE',Coins0=1,MaxPours=0)
ledger('forms',Forms=FORMS,Firsts='<- Few',Sums='<- Few',Deltas='<- Near',Thefts='{"retag","revalue"}')
ledger('wide',Owners='{1}',Sums='<- Few',Firsts='<- Few',Deltas='<- None',Branching='{8,256}',Heights='{0,1,2}',Coins0=3)
ledger('sim',Owners='{1,2,3}',Deltas='<- None',Firsts='<- Edges',Coins0=3,MaxPours=3,Heights='{1,2,3}',Branching='{2,3,4}',Receivers='{1,2,3}',Mints='TRUE')
ledger('simforms',Owners='{1,2,3}',Coins0=3,MaxPours=2,Heights='{1,2,3}',Branching='{2,3}',Receivers='{1}',Forms=FORMS,Deltas='<- None',Firsts='<- Small',Sums='<- Few')
