import sys; sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import torch, numpy as np, math
from symx import st, poly as P
import torch.nn.functional as F
torch.manual_seed(0)
def chk(*a,**k):
    try: chk_(*a,**k)
    except Exception as e: print('EXC',a[0],type(e),str(e)[:150])
def chk_(name, f, *shapes, pos=False):
    P.reset()
    with torch.no_grad():
        syms=[st.var(f'v{i}',s, 0.1 if pos else -1,1) for i,s in enumerate(shapes)]
        reals=[(torch.rand(s,dtype=torch.float64)*.9+.05 if pos else torch.rand(s,dtype=torch.float64)*2-1) for s in shapes]
        env={}
        c=P.ctx()
        for i,(s,r) in enumerate(zip(shapes,reals)):
            for j,v in enumerate(r.reshape(-1).tolist()): env[c.var(f'v{i}[{j}]')]=v
        with st.SymMode(): o=f(*syms)
        r=f(*reals)
        if not isinstance(o,(tuple,list)): o=[o]; r=[r]
        for a,b in zip(o,r):
            e=P.eval_rows(st.pm(a),env).reshape(tuple(a.shape))
            ok=tuple(a.shape)==tuple(b.shape) and np.allclose(e,b.double().numpy(),atol=1e-6)
            print('OK ' if ok else 'BAD',name,tuple(a.shape), a.stride()==b.stride())
def inpl(x):
    y=torch.empty(2,3,4,dtype=x.dtype); y[:,::2]=x[:,:2]; y[:,1]=7*x[:,0]; y.transpose(1,2)[0,0]=x[0,0,0]; y+=1; y*=x.sum(); return y
def mask(x):
    m=x*2; m[x<=0.1]=0.; return m
def idx(x):
    i=torch.tensor([2,0]); y=torch.zeros(2,3,4,dtype=x.dtype); y[:,i]=x[:,:2]; return y, x[:,i,1:3]
chk('inpl',inpl,(2,3,4)); chk('mask',mask,(2,3,4)); chk('idx',idx,(2,3,4))
chk('conv',lambda x,w,b:F.conv2d(x,w,b,stride=2,padding=1),(2,2,5,5),(4,2,3,3),(4,))
chk('convg',lambda x,w:F.conv2d(x,w,None,padding=1,groups=2,dilation=2),(1,2,5,5),(4,1,3,3))
chk('convT',lambda x,w:F.conv_transpose2d(x,w,None,stride=2,padding=1,output_padding=1),(1,2,3,3),(2,3,3,3))
chk('norm',lambda x:x.view(2,1,3,2,2).norm(dim=2,keepdim=True),(2,3,2,2))
chk('relu',lambda x:F.relu(x),(2,3)); chk('elu',lambda x:F.elu(x,alpha=.5),(2,3)); chk('sig',lambda x:torch.sigmoid(x-1),(2,3))
chk('max',lambda x:torch.max(x,1),(2,3,2)); chk('argm',lambda x:torch.cos(torch.max(x,1)[1].to(x.dtype)*.7),(2,3,2))
chk('mp',lambda x:F.max_pool2d(x,3,2,1),(1,2,5,5)); chk('amp',lambda x:F.adaptive_max_pool2d(x,2),(1,2,5,5))
chk('gath',lambda x:torch.gather(x,1,torch.max(x*x,1,keepdim=True)[1]),(2,3,2))
chk('ap',lambda x:F.avg_pool2d(x,3,2,1),(1,2,5,5)); chk('aap',lambda x:F.adaptive_avg_pool2d(x,2),(1,2,5,5))
chk('up',lambda x:F.interpolate(x,scale_factor=2,mode='bilinear',align_corners=True),(1,2,3,3)); chk('upn',lambda x:F.interpolate(x,scale_factor=2),(1,2,3,3))
chk('eins',lambda x,y:torch.einsum('oi,bihw->bohw',x,y),(2,3),(2,3,2,2))
chk('pad',lambda x:F.pad(x,(1,1,1,1),mode='circular'),(1,1,3,3)); chk('padr',lambda x:F.pad(x,(1,1,1,1),mode='reflect'),(1,1,3,3));chk('pad0',lambda x:F.pad(x,(1,1,1,1)),(1,1,3,3))
chk('bn',lambda x:torch.nn.BatchNorm2d(2,track_running_stats=False,affine=False).double()(x) if False else F.batch_norm(x,None,None,training=True),(2,2,2,2))
chk('ln',lambda x:F.layer_norm(x,(3,)),(2,3)); chk('sm',lambda x:F.softmax(x,1),(2,3)); chk('var',lambda x:x.var(dim=(0,2),unbiased=False),(2,3,2)); chk('std',lambda x:x.std(1),(2,3,2))
chk('matmul',lambda x,y:x@y,(2,3,4),(4,2)); chk('lin',lambda x,y,b:F.linear(x,y,b),(2,3),(4,3),(4,))
chk('rot',lambda x:torch.rot90(x,1,(2,3)),(1,1,3,3)); chk('stack',lambda x,y:torch.stack([x,y],2).flatten(1,2),(1,2,3),(1,2,3)); chk('unf',lambda x:F.unfold(x,3,padding=1),(1,2,3,3))
chk('where',lambda x,y:torch.where(x>y,x*2,y),(3,),(3,)); chk('clamp',lambda x:x.clamp(min=-.2,max=.3),(4,)); chk('sqrt',lambda x:x.sqrt()/x,(3,),pos=True)
chk('rsq',lambda x:x.pow(2).sum(1).rsqrt(),(2,3)); chk('bmm',lambda x,y:torch.bmm(x,y),(2,2,2),(2,2,2)); chk('leaky',lambda x:F.leaky_relu(x),(3,));chk('softplus',lambda x:F.softplus(x),(3,)); chk('silu',lambda x:F.silu(x),(3,)); chk('normdim',lambda x:torch.linalg.norm(x,dim=1),(2,3)); chk('cumsum',lambda x:torch.cumsum(x,1),(2,3)); chk('amax',lambda x:x.amax((1,2)),(2,3,2)); chk('hard',lambda x:torch.maximum(x,torch.tensor(.1)),(3,)); chk('chunk',lambda x:torch.cat(x.chunk(2,1)[::-1],1),(1,4,2)); chk('index_select',lambda x:x.index_select(1,torch.tensor([1,0])),(1,4,2)); chk('scatter',lambda x:torch.zeros(3,4,dtype=x.dtype).scatter_(1,torch.tensor([[1],[2],[0]]),x),(3,1)); chk('idxadd',lambda x:torch.zeros(3,dtype=x.dtype).index_add(0,torch.tensor([0,0,2]),x),(3,));chk('expm',lambda x:torch.exp(x)*x.reciprocal(),(3,)); chk('addcmul',lambda x,y:torch.addcmul(x,x,y,value=2),(3,),(3,)); chk('lerp',lambda x,y:torch.lerp(x,y,.1),(3,),(3,)); chk('mmask',lambda x:x.masked_fill(x>0,1.),(3,)); chk('prelu',lambda x,w:F.prelu(x,w),(1,2,3),(2,)); chk('tensordot',lambda x,y:torch.tensordot(x,y,dims=([1],[0])),(2,3),(3,2)); chk('instn',lambda x:F.instance_norm(x),(1,2,2,2)); chk('mean',lambda x:x.mean((1,2)),(1,2,2)); chk('topk',lambda x:x.topk(1,1)[0],(1,3))
