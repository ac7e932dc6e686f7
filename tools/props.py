from vlib import J, grid
PROPS = {}
H='h_dist'
mn=lambda lo,hi: [dict(m=a,n=b) for a in range(lo,hi+1) for b in range(lo,hi+1)]
bands=lambda ls: [dict(m=n,n=n,band=b) for n in ls for b in range(n)]
PROPS['C03'] = dict(jobs=[J(H,'c03_optimum',mn(2,5)), J(H,'c03_optimum',mn(6,7),time=3000,mem=6000,tier='thorough')], reach=['path','no path'], bounds='')
PROPS['C04'] = dict(jobs=[J(H,'c04_warped',mn(2,4)+[dict(m=5,n=5)]),J(H,'c04_cascade',mn(2,3)+bands([4])+[dict(m=3,n=4),dict(m=4,n=3)]),J(H,'c04_pairwise',grid(n=[1,2,3,4,5,6])),J(H,'c04_cascade',bands([5])+[dict(m=4,n=5),dict(m=5,n=4)],time=3000,tier='thorough'),J(H,'c04_warped',[dict(m=6,n=6),dict(m=5,n=6),dict(m=6,n=5)],time=3000,tier='thorough')], reach=['abandoned','exact'], bounds='')
PROPS['C05'] = dict(jobs=[J(H,'c05_keogh',mn(2,4)+[dict(m=5,n=5,band=b) for b in (1,2)],time=200),J(H,'c05_cross',mn(2,3)+bands([4])+[dict(m=3,n=4),dict(m=4,n=3)]),J(H,'c05_keogh',bands([5])+[dict(m=4,n=5),dict(m=5,n=4)],time=3000,tier='thorough'),J(H,'c05_cross',bands([5])+[dict(m=4,n=5),dict(m=5,n=4)],time=3000,tier='thorough')], reach=['path','no path','pruned'], bounds='')
PROPS['C06'] = dict(jobs=[J(H,'c06_envelope',grid(n=[1,2,3,4,5])),J(H,'c06_rebands',grid(n=[3])),J(H,'c06_envelope',grid(n=[6]),time=3000,tier='thorough'),J(H,'c06_rebands',grid(n=[4]),time=3000,tier='thorough')], reach=['done'], bounds='')
PROPS['C07'] = dict(jobs=[J(H,'c07_warped',mn(2,4)),J(H,'c07_pairwise',grid(n=[1,2,3,4,5])),J(H,'c07_lengths'),J(H,'c07_names')], reach=['finite','infinite','zero','known','unknown','done'], bounds='')
PROPS['C24'] = dict(jobs=[J(H,'c24_order'),J(H,'c24_sort',grid(n=[2,3]))], reach=['apart','tie','done'], bounds='')
S='h_set'
PROPS['C16'] = dict(jobs=[J(S,'c16_normalize',[dict(n=a,l=b) for a in (1,2,3) for b in (1,2,3,4)]),J(S,'c16_flag'),J(S,'c16_api')], reach=['flat','spread','empty','reload','clear','twice'], bounds='')
PROPS['C17'] = dict(jobs=[J(S,'c17_paa',[dict(n=a,l=b) for a in (1,2,3) for b in range(1,8)]),J(S,'c17_refused'),J(S,'c17_empty'),J(S,'c17_twice',grid(l=[1,2,3,4,5,6]))], reach=['done','refused','accepted'], bounds='')
PROPS['C18'] = dict(jobs=[J(S,'c18_access',[dict(n=a,l=b) for a in (1,2,3) for b in (1,2,3,4)]),J(S,'c18_empty'),J(S,'c18_add')], reach=['refused','whole','part','element','added'], bounds='')
PROPS['C22'] = dict(jobs=[J(S,'c22_series',grid(steps=[1,2])),J(S,'c22_set',grid(steps=[1,2,3])),J(S,'c22_groups',grid(steps=[1,2,3]))], reach=['done'], bounds='')
F='h_file'
PROPS['C11'] = dict(jobs=[J(F,'c11_table',[dict(n=a,l=b) for a in (1,2,3) for b in (1,2,3)]),J(F,'c11_text'),J(F,'c11_name')], reach=['done'], bounds='')
PROPS['C12'] = dict(jobs=[J(F,'c12_bytes',grid(k=[0,1,2,3,4],al=[0,1,2,3])),J(F,'c12_bytes',grid(k=[5],al=[0,1])),J(F,'c12_args'),J(F,'c12_extreme'),J(F,'c12_range'),J(F,'c12_open')]+[J(F,e,variant='float') for e in ('c12_range','c12_args','c12_open')]+[J(F,'c12_bytes',grid(k=[3],al=[0,1]),variant='float'),J(F,'c12_bytes',grid(k=[5],al=[2,3])+grid(k=[6],al=[0,1]),time=3000,tier='thorough')], reach=['accepted','refused'], bounds='')
PROPS['C13'] = dict(jobs=[J(F,'c13_roundtrip',[dict(n=a,l=b) for a in (1,2,3) for b in (1,2,3,4)]),J(F,'c13_overwrite')]+[J(F,'c13_roundtrip',[dict(n=2,l=3)],variant='float'),J(F,'c13_overwrite',variant='float')], reach=['done'], bounds='')
PROPS['C14'] = dict(jobs=[J(F,'c14_roundtrip',[dict(n=2,l=2),dict(n=1,l=3),dict(n=2,l=3),dict(n=3,l=2)]),J(F,'c14_roundtrip',[dict(n=1,l=3)],variant='float')], reach=['done'], bounds='')
PROPS['C15'] = dict(jobs=[J(F,'c15_truncate',grid(th=[0,1])),J(F,'c15_bytes',grid(th=[0,1]),time=250),J(F,'c15_numbers'),J(F,'c15_other'),J(F,'c15_dims'),J(F,'c15_unloaded')], reach=['accepted','refused'], bounds='')
PROPS['C28'] = dict(jobs=[J(F,'c28_save'),J(F,'c28_saveGroups'),J(F,'c28_load'),J(F,'c28_loadGroups'),J(F,'c28_open')], reach=['failed','written','read'], bounds='')
G='h_group'
PROPS['C01'] = dict(jobs=[J(G,'c01_partition',[dict(n=2,l=3,sizes=1),dict(n=2,l=3,dist=1),dict(n=1,l=4,sizes=1),dict(n=3,l=2,sizes=1),dict(n=1,l=1),dict(n=3,l=4,sym=1,th=2),dict(n=3,l=4,sym=1,th=3),dict(n=2,l=6,sym=1,kind=2,th=3),dict(n=4,l=3,sym=1,th=2,dist=1)]),J(G,'c01_local',[dict(n=3,l=3),dict(n=1,l=6,th=2),dict(n=1,l=5),dict(n=3,l=5,sym=1,th=3),dict(n=4,l=5,len=3,sym=1,kind=3,th=3),dict(n=3,l=4,sym=2,th=3),dict(n=3,l=4,len=4)],time=200),
  J(G,'c01_partition',[dict(n=3,l=3,th=2),dict(n=3,l=4,sym=2),dict(n=3,l=4,sym=1),dict(n=2,l=6,sym=1,kind=2)],time=3000,tier='thorough'),J(G,'c01_local',[dict(n=3,l=4,th=2),dict(n=3,l=5,sym=3),dict(n=3,l=5,sym=1),dict(n=4,l=5,len=3,sym=1,kind=3),dict(n=4,l=5,len=3,sym=2)],time=3000,tier='thorough')], reach=['one group per length','several groups','done'], bounds='')
PROPS['C02'] = dict(jobs=[J(G,'c02_local',[dict(n=3,l=4,sym=3,len=3,kind=2),dict(n=3,l=4,sym=1),dict(n=3,l=5,sym=1,th=3),dict(n=4,l=5,len=3,sym=1,kind=3,th=3),dict(n=2,l=3),dict(n=3,l=3),dict(n=1,l=5),dict(n=3,l=2),dict(n=3,l=3,len=3)],time=250),J(G,'c02_saved',[dict(n=2,l=3),dict(n=1,l=4)]),J(G,'c02_local',[dict(n=3,l=4,sym=3),dict(n=4,l=3,len=3),dict(n=2,l=5,th=2)],time=3000,tier='thorough')], reach=['first group','second group','joined'], bounds='')
PROPS['C21'] = dict(jobs=[J(G,'c21_sizes'),J(G,'c21_clock'),J(G,'c21_symbolic'),J(G,'c21_extreme',grid(**{'choice:kind#0':[0,1,2,3]}),opts=['--no-merge'],time=150)], reach=['grouped','compared'], bounds='')
PROPS['C29'] = dict(jobs=[J(G,'c29_regroup',[dict(n=2,l=2),dict(n=2,l=2,steps=2),dict(n=1,l=3),dict(n=2,l=4,sym=1,steps=1),dict(n=3,l=4,sym=0,symth=1),dict(n=3,l=4,sym=0,steps=3)],time=200),J(G,'c29_fails'),J(G,'c29_api'),J(G,'c29_regroup',[dict(n=2,l=3),dict(n=3,l=4,sym=1,steps=1),dict(n=3,l=4,sym=1,steps=2)],time=3000,tier='thorough')], reach=['refused','regrouped'], bounds='')
X='h_search'
EX=['--no-merge','--exact','3']; NM=['--no-merge']
PROPS['C08'] = dict(jobs=[J(X,'c08_api',grid(**{'choice:from#0':[1],'choice:kind#0':[0],'choice:start#0':[0,1,2],'ratio':[3]})+grid(**{'choice:from#0':[0],'ratio':[0,1,2,3,5]})+grid(**{'choice:from#0':[1],'choice:kind#0':[1],'choice:start#0':[0,2],'ratio':[2]}),opts=EX,time=250),
  J(X,'c08_match',[dict(n=2,l=4,m=3,qsym=1,ratio=3),dict(n=2,l=4,m=4,qsym=0,sym=1,ratio=3),dict(n=2,l=3,m=2,qsym=1),dict(n=3,l=3,m=3,qsym=1,ratio=3,kind=2),dict(n=2,l=3,m=3,sym=1,qsym=0),dict(n=2,l=3,m=5,qsym=1,ratio=3,dist=1),dict(n=1,l=3,m=2,qsym=2,ratio=5),dict(n=2,l=5,m=3,qsym=0,kind=3,th=4),dict(n=3,l=6,m=4,qsym=0,kind=0,th=1)],opts=EX,time=250),
  J(X,'c08_match',[dict(n=2,l=4,m=3,qsym=1),dict(n=2,l=4,m=4,qsym=1),dict(n=2,l=3,m=2,qsym=2),dict(n=2,l=3,m=3,sym=1,qsym=1),dict(n=3,l=4,m=3,qsym=1,ratio=3,kind=2),dict(n=3,l=4,m=3,qsym=1,ratio=2,kind=3)],opts=EX,time=3000,mem=4000,tier='thorough'),J(X,'c08_api',grid(ratio=[1,2,5]),opts=EX,time=3000,tier='thorough')], reach=['matched','refused'], bounds='')
PROPS['C09'] = dict(jobs=[J(X,'c09_nearest',[dict(n=2,l=4,m=4,qsym=1,ratio=3,th=1),dict(n=2,l=4,m=3,qsym=1,ratio=3,th=2),dict(n=2,l=4,m=3,qsym=0,sym=1,ratio=3,th=1),dict(n=2,l=3,m=2,qsym=1),dict(n=2,l=3,m=3,qsym=1,ratio=3,th=3),dict(n=3,l=3,m=2,qsym=1,ratio=5),dict(n=3,l=3,m=3,qsym=1,ratio=5,kind=3,th=3),dict(n=2,l=3,m=4,qsym=1,ratio=3,th=2),dict(n=3,l=3,m=3,sym=1,qsym=0,ratio=3,th=2),dict(n=3,l=5,m=3,qsym=0,kind=0,th=2),dict(n=3,l=5,m=4,qsym=0,kind=3,th=3)],opts=EX,time=350),
  J(X,'c09_nearest',[dict(n=2,l=4,m=3,qsym=1),dict(n=2,l=3,m=2,qsym=2),dict(n=2,l=4,m=4,qsym=1,th=2),dict(n=3,l=4,m=3,qsym=1,ratio=3,th=2),dict(n=3,l=4,m=3,qsym=1,ratio=5,th=3,kind=3),dict(n=2,l=3,m=3,sym=1,qsym=1,ratio=3)],opts=EX,time=3000,mem=4000,tier='thorough')], reach=['matched','other groups','other members'], bounds='')
PROPS['C10'] = dict(jobs=[J(X,'c10_order',grid(total=[2,3,4,5,6,7,8]),time=200),J(X,'c10_long',grid(total=[9,20,30])),J(X,'c10_match',grid(l=[3,4]),opts=EX,time=250),J(X,'c10_order',grid(total=[10,12,16]),time=3000,tier='thorough'),J(X,'c10_long',grid(total=[60,100]),time=3000,tier='thorough'),J(X,'c10_match',grid(l=[5,6]),opts=EX,time=3000,tier='thorough')], reach=['other length','left out'], bounds='')
PROPS['C20'] = dict(jobs=[J(X,'c20_history',[dict(steps=1)],opts=EX),J(X,'c20_history',grid(steps=[2],**{'choice:op#0':list(range(10))}),opts=EX,time=250),J(X,'c20_history',[dict(steps=4,ops=3,sym=0),dict(steps=5,l=6,**{'choice:op#0':1,'choice:op#1':2,'choice:op#2':0,'choice:op#3':9}),dict(steps=4,l=5,**{'choice:op#0':0,'choice:op#1':9,'choice:op#3':9})],opts=EX,time=250),J(X,'c20_history',grid(steps=[3],**{'choice:op#0':list(range(10))}),opts=EX,time=3000,tier='thorough')], reach=['answered','refused'], bounds='')
PROPS['C25'] = dict(jobs=[J(X,'c25_api',grid(**{'choice:ratio#0':list(range(7))}),opts=NM,time=200),J(X,'c25_short',grid(**{'choice:l#0':[0,1,2],'choice:n#0':[0,1]}),opts=EX,time=250),J(X,'c25_long',grid(l=[2,3,4]),opts=EX)], reach=['answered','refused'], bounds='')
PROPS['C27'] = dict(jobs=[J(X,'c27_history',[dict(qsym=0,steps=2),dict(qsym=0,steps=2,sym=0,ratio=0,th=2)]+grid(steps=[1],**{'choice:norm#0':[0],'choice:qb#0':[0,1]}),opts=EX,time=250),J(X,'c27_other',grid(sym=[0,1]),opts=EX,time=250),J(X,'c27_distance',[dict(m=a,n=b) for a in (2,3) for b in (2,3)]),J(X,'c27_history',[dict(qsym=0,steps=3),dict(qsym=1,steps=2)],opts=EX,time=3000,tier='thorough')], reach=['repeated'], bounds='')
A='h_api'
PROPS['C19'] = dict(jobs=[J(A,'c19_history',[dict(steps=3)],opts=NM,time=200),J(A,'c19_history',[dict(steps=4,files=1,bads=1,anys=1)],opts=NM,time=250),J(A,'c19_holes',[dict(loads=3,steps=3),dict(loads=4,steps=3),dict(loads=5,steps=2)],opts=NM,time=250),J(A,'c19_holes',grid(loads=[4,5],steps=[4]),opts=NM,time=3000,tier='thorough'),J(A,'c19_unused',opts=NM),J(A,'c19_failed',opts=NM),J(A,'c19_history',grid(steps=[4],**{'choice:op#0':[0,1,2,3,4]}),opts=NM,time=3000,tier='thorough')], reach=['loaded','failed load','unloaded','refused','all unloaded'], bounds='')
L='h_cli'
PROPS['C23'] = dict(jobs=[J(L,'c23_args',grid(state=[0,2,3],**{'choice:cmd#0':list(range(19))}),opts=NM),J(L,'c23_chars',grid(k=[3,4],state=[2],**{'choice:cmd#0':list(range(10))}),opts=NM,time=200),J(L,'c23_line',grid(al=[0,1,2,3],k=[4,5])+grid(al=[0],k=[6]),opts=NM),J(L,'c23_history',grid(steps=[3]),opts=NM,time=200),J(L,'c23_eof',opts=NM),J(L,'c23_load',opts=NM),
  J(L,'c23_history',grid(steps=[4],**{'choice:line#0':list(range(14))}),opts=NM,time=3000,tier='thorough'),J(L,'c23_chars',grid(k=[5,6],state=[1,2,3],**{'choice:cmd#0':list(range(10))}),opts=NM,time=3000,tier='thorough')], reach=['done','failed','quit','nothing','session','asked'], bounds='')
K='h_kernel'
PROPS['C26'] = dict(jobs=[J(K,'c26_dtw',[dict(m=m,r=r) for m in range(1,8) for r in range(0,m)]),J(K,'c26_abandon',[dict(m=m,r=r,cb=c) for m in (1,2,3,4) for r in range(0,m) for c in (0,1,2)]+[dict(m=5,r=r,cb=c) for r in (1,2) for c in (0,1,2)],time=200),J(K,'c26_keogh',[dict(m=m,r=r) for m in (1,2,3,4) for r in range(0,m)]+[dict(m=5,r=1)],time=200),J(K,'c26_keoghData',[dict(m=m,r=r) for m in (1,2,3,4) for r in range(0,m)]+[dict(m=5,r=1)],time=200),J(K,'c26_kim',[dict(m=6,r=1,**{'choice:cut#0':c}) for c in (0,1)]+[dict(m=7,r=1,**{'choice:cut#0':0})],time=200),
  J(K,'c26_dtw',[dict(m=m,r=r) for m in (8,9,10) for r in range(0,m)],time=1000,tier='thorough'),J(K,'c26_abandon',[dict(m=5,r=r,cb=c) for r in (3,4) for c in (0,1,2)]+[dict(m=6,r=r,cb=c) for r in (1,2) for c in (0,1,2)],time=3000,tier='thorough'),J(K,'c26_keogh',[dict(m=5,r=r) for r in (2,3,4)],time=3000,tier='thorough'),J(K,'c26_keoghData',[dict(m=5,r=r) for r in (2,3,4)],time=3000,tier='thorough'),J(K,'c26_kim',[dict(m=6,r=2),dict(m=7,r=1),dict(m=8,r=1)],time=3000,tier='thorough')], reach=['exact','below','not below','complete','cut short'], bounds='')
# ---- large shapes with few symbolic values (fix), and any magnitude of values (wide) ----
def more(p,*js): PROPS[p]['jobs']+=list(js)
rat=lambda *r: {'choice:ratio#0':list(r)}
W=[1,3]
more('C03',J(H,'c03_optimum',grid(m=[12],n=[12],fix=[12],**rat(0,1,2,4,6))+grid(m=[24],n=[24],fix=[24],**rat(0,1))+grid(m=[40],n=[39],fix=[40],**rat(1))+grid(m=[16],n=[14],fix=[16],**rat(2))),J(H,'c03_optimum',grid(m=[3],n=[3,4],wide=W)))
more('C04',J(H,'c04_warped',grid(m=[12],n=[12],fix=[12],band=[1,2])+grid(m=[12],n=[11],fix=[6],band=[1,2])+grid(m=[3],n=[3],wide=W)),J(H,'c04_cascade',grid(m=[12],n=[12],fix=[12],band=[1,2])),J(H,'c04_pairwise',grid(n=[32],fix=[8])+grid(n=[3],wide=W)))
more('C05',J(H,'c05_keogh',grid(m=[12],n=[12],fix=[12],band=[1,2])+grid(m=[3],n=[3],wide=W)),J(H,'c05_cross',grid(m=[12],n=[11],fix=[12],band=[1,2])))
more('C06',J(H,'c06_envelope',grid(n=[30],fix=[15],**{'choice:off#0':[1],'choice:band#0':[0,1,3,8,29]})+grid(n=[4],wide=W)))
more('C07',J(H,'c07_warped',grid(m=[12],n=[12],fix=[12],band=[1,2])+grid(m=[3],n=[3],wide=W)),J(H,'c07_pairwise',grid(n=[32],fix=[8])+grid(n=[3],wide=W)))
more('C16',J(S,'c16_normalize',[dict(n=12,l=9,fix=36),dict(n=1,l=65,fix=21)]+grid(n=[2],l=[3],wide=W)))
more('C17',J(S,'c17_paa',[dict(n=3,l=40,fix=8),dict(n=10,l=12,fix=7)]+grid(n=[2],l=[5],wide=W)))
more('C18',J(S,'c18_access',[dict(n=5,l=9,fix=1000)],opts=NM,time=200),J(S,'c18_add',grid(wide=W)))
more('C11',J(F,'c11_table',grid(n=[12],l=[14],fix=[9],**{'choice:style#0':[0],'choice:seps#0':[1]})+grid(n=[3],l=[90],fix=[9],**{'choice:style#0':[0],'choice:seps#0':[0],'choice:from#0':[17],'choice:max#0':[0,2]})+grid(n=[2],l=[2],wide=W)))
more('C13',J(F,'c13_roundtrip',grid(n=[12],l=[14],fix=[30],**{'choice:pre#0':[0,2]})+grid(n=[40],l=[3],fix=[30],**{'choice:pre#0':[0]})+grid(n=[2],l=[3],wide=W)))
more('C14',J(F,'c14_roundtrip',[dict(n=20,l=8,fix=1000,th=4),dict(n=12,l=4,fix=48,th=1)]))
more('C01',J(G,'c01_partition',[dict(n=10,l=10,sym=0,th=2,sizes=1),dict(n=10,l=10,sym=0,th=3,kind=2,dist=1),dict(n=6,l=6,sym=0),dict(n=6,l=6,sym=1,th=2)]),J(G,'c01_local',grid(n=[2],l=[3],wide=W)))
more('C02',J(G,'c02_local',[dict(n=10,l=12,sym=0,th=2,len=5,kind=2),dict(n=8,l=6,sym=1,th=2,len=3),dict(n=12,l=6,sym=0,len=3,kind=3)]+grid(n=[2],l=[3],wide=W)))
more('C08',J(X,'c08_match',[dict(n=6,l=12,m=9,qsym=0,ratio=2,th=3,kind=3),dict(n=3,l=12,m=11,qsym=1,ratio=1,th=3,kind=2)],opts=EX,time=250))
more('C09',J(X,'c09_nearest',[dict(n=5,l=10,m=7,qsym=0,ratio=3,th=2,kind=3,fix=1000),dict(n=5,l=10,m=7,qsym=1,ratio=1,th=2,kind=3,fix=1000)],opts=EX,time=250))
more('C08',J(X,'c08_api',grid(**{'choice:from#0':[0],'ratio':[0,2,3,5],'loaded':[1]}),opts=EX),J(X,'c08_match',[dict(n=2,l=4,m=3,qsym=1,ratio=3,loaded=1)],opts=EX,time=250))
more('C09',J(X,'c09_nearest',[dict(n=2,l=3,m=3,qsym=1,ratio=3,th=3,loaded=1),dict(n=2,l=4,m=3,qsym=0,sym=1,ratio=3,th=1,loaded=1)],opts=EX,time=250))
more('C14',J(F,'c14_match',grid(**{'choice:at#0':[0,1],'choice:th#0':[0,1]}),opts=EX,time=200))
more('C26',J(K,'c26_dtw',grid(m=[24],r=[2,7],fix=[24])),J(K,'c26_abandon',grid(m=[24],r=[1],cb=[0],fix=[24])),J(K,'c26_keogh',grid(m=[24],r=[2],fix=[24])),J(K,'c26_keoghData',grid(m=[24],r=[2],fix=[24])),J(K,'c26_kim',grid(m=[16],r=[1],fix=[5])))
# ---- what each check covers (evidence, manifest) ----
B = {
'C03': ('All values in [-8,8] of both series, every length pair 2..5 (thorough 2..7), band ratios 0, 0.1, 0.25, 0.4, 0.5, 0.75, 1. Length pairs up to 40x39 with one value of each series symbolic; any value up to 1e210 for 3x3, 3x4.', 'longer series; rounding'),
'C04': ('All values in [-8,8] and all cut-offs in [0,8] or infinity; point-wise: length 1..6; warped: every length pair 2..4 and 5x5 (thorough 6x6); cascaded: pairs 2..3, 3x4, 4x3, 4x4 (thorough 5x5); every band size. Length 12 (point-wise 32) with one or two values symbolic; any value up to 1e210 for length 3.', 'longer series; negative cut-offs; rounding'),
'C05': ('All values in [-8,8], all cut-offs >= 0 or infinity, both directions; one-sided: every length pair 2..4 and 5x5 with bands 1, 2 (thorough all bands); two-sided: pairs 2..3, 3x4, 4x3, 4x4 (thorough 5x5). Length 12 with one value of each series symbolic, bands 1 and 2; any value up to 1e210 for 3x3.', 'longer series; rounding'),
'C06': ('All values in [-8,8], length 1..5 (thorough 6), every band 0..length+2, offset 0 or 1, lower or upper asked first; three changes of band at length 3 (thorough 4). Length 30 with two values symbolic, five bands; any value up to 1e210 at length 4.', 'longer series'),
'C07': ('All values in [-8,8]; warped and cascaded: every length pair 2..4, every band; point-wise: length 1..5; refusal: every length pair 1..5. Length 12 (point-wise 32) with a few values symbolic; any value up to 1e210 for length 3.', 'longer series; rounding'),
'C24': ('Any two candidates (distance in [0,8], index and start 0..3, length 1..4); sorting of 2 and 3 candidates. Distances exactly at the tolerance are not judged.', 'distances outside [0,8]'),
'C16': ('All values in [-8,8], 1..3 series of length 1..4 (every parity); flag histories; the API. 12x9 and 1x65 with three values symbolic; any value up to 1e210 for 2x3.', 'larger datasets; rounding'),
'C17': ('All values, 1..3 series of length 1..7, block sizes 1..length+1 and 2^31-1; all non-positive block sizes; two aggregations in a row. 3x40 and 10x12 with every eighth value symbolic; values up to 1e210 for 2x5.', 'larger datasets; rounding'),
'C18': ('All 32-bit index, start, end and element positions; 1..3 series of length 1..4; additions of lengths 1..4, owned or viewed. 5x9 datasets of fixed values; additions of values up to 1e210.', 'larger datasets'),
'C22': ('Pool of two owned series and one view: every sequence of 2 copies, assignments, moves and additions, envelopes warm or cold; dataset and group histories of up to 3 operations with every allocation tracked.', 'longer histories'),
'C11': ('All values; tables of 1..3 rows and 1..3 fields, any row limit, any start column, separators and runs of separators as choices, missing last line end, lines of any text after the limit. 12x14 and 3x90 tables with every ninth value symbolic; values up to 1e210 for 2x2.', 'larger tables'),
'C12': ('Any file of up to 4 bytes over four alphabets and 5 bytes over two of them (thorough 5 and 6), any 32-bit row limit and start column, extreme and out-of-range numbers, in the double and the single precision build.', 'longer files; bytes outside the alphabets; nan and inf as field text'),
'C13': ('All values; 1..3 series of length 1..4; plain, normalised or aggregated; overwriting a longer file; double and single precision. A written value is a token that keeps its value exactly if max_digits10 digits are written and is any number rounded to the digits otherwise. 12x14 and 40x3 with a few values symbolic; values up to 1e210 for 2x3.', 'digits of one particular number'),
'C14': ('All values, 2x2, 1x3, 2x3 and 3x2 datasets, thresholds as choices; comparison of the file saved again and of a match. 20x8 fixed values, 12x4 with one symbolic. A match of any one-symbolic-point query of two points before and after.', 'larger datasets'),
'C15': ('A saved group file cut off after any byte; any byte replaced by any of an alphabet; any whole number replaced by any 32-bit number; other dimensions, versions, names; sizes-only file; previous state grouped or not.', 'several damaged fields at once'),
'C28': ('One read or write fault at any operation (open, any read, any write, close) of dataset and group files.', 'two faults in one operation; read faults while loading groups count as truncation'),
'C01': ('All values in [-8,8] and all thresholds in [0,40] for 2x3, 1x4, 3x2 (whole space) and 3x3, 1x5 (one length); partly symbolic data up to 4x5 and 2x6; both distances. 10x10 and 6x6 with at most one value or the threshold symbolic; values up to 1e210 for 2x3 (one length).', 'larger datasets; negative thresholds'),
'C02': ('All values and thresholds for 2x3, 3x3, 1x5, 3x2 (one length each), partly symbolic data up to 4x5; whole spaces 2x3, 1x4. Borders are judged up to 1e-7 because fixed parts are computed with rounding. 10x12, 8x6 and 12x6 with at most one value or the threshold symbolic; values up to 1e210 for 2x3.', 'larger datasets'),
'C21': ('Datasets of 1..8 series and 1..7 points; any sequence of clock readings; every 2x3 dataset of values with and without progress reports; extreme values, nan and infinite fields, infinite, negative and nan thresholds.', 'larger datasets'),
'C29': ('Histories of up to 3 grouping requests (any of four thresholds, the other distance, an unknown distance) before the last one; symbolic values 2x2, 1x3, partly symbolic up to 3x4; symbolic threshold.', 'longer histories'),
'C08': ('Fixed datasets up to 3x6 with any values for up to one entry and one or two query points in [-10,10]; every query position through the API; seven band ratios. 6x12 and 3x12 with a query of 9 and 11 points, at most one of them symbolic. Groups just built or loaded from a file.', 'datasets and queries with all values symbolic'),
'C09': ('Fixed datasets up to 3x5 with any values for up to one entry and one query point, five thresholds, band ratios; every other group and member is compared path by path. 5x10 with a query of 7 points, at most one of them symbolic. Groups just built or loaded from a file.', 'datasets and queries with all values symbolic'),
'C10': ('Any band ratio in [0,1] for total lengths 2..8 (thorough 16) and every query length; 13 ratios for totals 9, 20, 30 (thorough 100); the lengths actually searched for datasets of length 3, 4 (thorough 6).', 'longer series'),
'C20': ('Every history of up to 4 operations out of grouping, normalising and aggregating, and of up to 2 (thorough 3) operations out of grouping, normalising, aggregating, reloading, loading groups (good, damaged), failed loads, clearing, followed by matches judged against the current values.', 'longer histories; group files of equal dimensions made for other values'),
'C25': ('Any ids, series index, start and end for two datasets and seven ratios; queries of 0..4 points against datasets of 1..3 points; queries up to 4 points longer than the series with any ratio.', 'one negative and one valid position'),
'C27': ('Every history of up to 2 (thorough 3) queries, band changes and exports between two identical queries; queries from a dataset that is changed or unloaded afterwards; snapshots of data, groups and info compared byte by byte; pairs of series of length 2..3 with any values.', 'longer histories'),
'C19': ('Every history of 3 operations with any ids, 4 with one kind of each, 3 loads and unloads of any 32-bit id after 3 or 4 loads; ten operations on any 32-bit unused id; seven reasons for a failed load.', 'longer histories'),
'C23': ('Every command with 0..7 arguments of any kind in three states; any 3 or 4 characters after every command; any line of 4..6 characters over four alphabets; load with any 1..3 separator characters; sessions of 3 (thorough 4) lines; end of input.', 'longer lines and sessions; partly numeric arguments such as 1abc'),
'C26': ('All values in [-8,8]; dtw kernel: length 1..7 (thorough 10), every band, without abandoning; abandoning and cumulative bounds: length 1..5; first/last-point bound: length 6, 7 (thorough 8). Length 24 with one value of each series symbolic.', 'longer series; the file-reading driver calculate()'),
}
for _k, (_a, _b) in B.items(): PROPS[_k]['bounds'] = _a; PROPS[_k]['outside'] = _b
