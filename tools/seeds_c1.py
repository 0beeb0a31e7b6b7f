from mkseed import *
TREE = '''
#define EML_TREES_REGRESSION_ENABLE 1
#include <stdio.h>
#include <eml_common.h>
#include <eml_trees.h>
static const EmlTreesNode nodes[] = { {0, 10, -1, -2}, {1, 5, -2, -1} };
static int32_t roots[] = {0, 1};
static const uint8_t leaves[] = {0, 1};
static EmlTrees model(void) { EmlTrees t; memset(&t, 0, sizeof(t)); t.n_nodes=2; t.nodes=(EmlTreesNode*)nodes; t.n_trees=2; t.tree_roots=roots;
 t.leaves=(uint8_t*)leaves; t.n_leaves=2; t.leaf_bits=0; t.n_features=2; t.n_classes=2; return t; }
'''
H = 'emlearn/'
seed('c01-vla-column', 'C01', [(H + 'eml_csv.h', 'char buffer[EML_CSV_ITEM_MAX_LENGTH];', 'char buffer[EML_CSV_ITEM_MAX_LENGTH];')] if 0 else
     [(H + 'eml_mixture.h', 'float log_proba[EML_MIXTURE_MAX', 'float log_proba[EML_MIXTURE_MAX')] if 0 else
     [(H + 'eml_neighbors.h', '''    int16_t votes[EML_NEIGHBORS_MAX_CLASSES];
    memset(votes, 0, sizeof(votes));''', '''    const int n_ranked = distances_length;
    EmlNeighborsDistanceItem ranked[n_ranked > 0 ? n_ranked : 1];
    memcpy(ranked, distances, sizeof(EmlNeighborsDistanceItem) * n_ranked);
    int16_t votes[EML_NEIGHBORS_MAX_CLASSES];
    memset(votes, 0, sizeof(votes));'''),
      (H + 'eml_neighbors.h', 'EmlNeighborsDistanceItem d = distances[i];', 'EmlNeighborsDistanceItem d = ranked[i];')],
     c_demo('''
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <eml_common.h>
#include <eml_neighbors.h>
#include <string.h>
#include <pthread.h>
/* runs a large model on a thread with a 128 KiB stack, as an RTOS task would */
#define N 32000
static int16_t data[N], labels[N]; static EmlNeighborsDistanceItem dist[N];
static volatile int res = -1;
static void *work(void *p) {
  EmlNeighborsModel m; memset(&m,0,sizeof m); m.n_features=1; m.n_items=N; m.max_items=N; m.data=data; m.labels=labels; m.k_neighbors=1;
  int16_t f[1] = {123}; int16_t out=-1;
  EmlError e = eml_neighbors_predict(&m, f, 1, dist, N, &out);
  res = (e==EmlOk && out == 1) ? 0 : 1; return 0; }
int main(void){ for(int i=0;i<N;i++){data[i]=(i*7919)%30011; labels[i]=1;} 
 pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 128*1024); pthread_t t; pthread_create(&t,&a,work,0); pthread_join(t,0); return res; }
''', flags='-pthread -O1'),
     'a model with many training items and a small stack', 'prediction puts a copy of the distance array, whose size depends on the model, on the stack')

seed('c02-log2-memo', 'C02', [(H + 'eml_bayes.h', '''eml_bayes_logpdf_fixed(eml_q16_t x''', '''eml_bayes_logpdf_fixed(eml_q16_t x''')] if 0 else
     [(H + 'eml_trees.h', '''    float votes[EMTREES_MAX_CLASSES] = {0};
''', '''    static float votes[EMTREES_MAX_CLASSES];
''')],
     c_demo(TREE + '''
#include <pthread.h>
#define NT 2001
static EmlTreesNode big[NT]; static int32_t r2[NT]; static const uint8_t lv[] = {0,1};
static volatile int bad = 0;
static void *work(void *p) { int16_t f[2]; int want = p ? 1 : 0; f[0] = want ? 100 : -100; f[1] = 0;
 EmlTrees t = model(); t.n_trees = NT; t.tree_roots = r2; t.nodes = big; t.leaves=(uint8_t*)lv; t.n_classes = 2;
 for (int i=0;i<3000;i++) { int c = eml_trees_predict(&t, f, 2); if (c != want) bad = 1; } return 0; }
int main(void) { for (int i=0;i<NT;i++) { big[i].feature=0; big[i].value=0; big[i].left=-1; big[i].right=-2; r2[i]=i; }
 pthread_t a, b; pthread_create(&a,0,work,(void*)0); pthread_create(&b,0,work,(void*)1); pthread_join(a,0); pthread_join(b,0); return bad; }
''', flags='-pthread -O1'),
     'two threads (or an interrupt) predicting at the same time', 'class votes live in a static array shared by all callers')

seed('c04-exit-on-leaf', 'C04', [(H + 'eml_net.h', '''    // Copy the input into layer-internal buffer''', '''    // Copy the input into layer-internal buffer''')] if 0 else
     [(H + 'eml_array.h', '''    const int offset = (row * self->dims[0]) + col;''', '''    if (self->data == NULL) {
        // array used before initialisation
        abort();
    }
    const int offset = (row * self->dims[0]) + col;'''), (H + 'eml_array.h', '#include <string.h> // memcpy', '#include <string.h> // memcpy\n#include <stdlib.h>')],
     c_demo('''
#include <stdlib.h>
#include <eml_common.h>
#include <eml_array.h>
int main(void){ EmlArray a; memset(&a,0,sizeof a); a.n_dims=2; a.dims[0]=2; a.dims[1]=2; a.value_size=2; a.data=NULL; void *p = eml_array_data_2d(&a,0,0); (void)p; return 0; }
'''), 'an array whose data pointer is NULL', 'an accessor ends the process instead of returning')

seed('c12-two-tu-const', 'C12', [(H + 'eml_fft.h', '#include <math.h>', '#include <math.h>')] if 0 else
     [(H + 'eml_quantizer.h', '''#endif // EML_QUANTIZER_H''', '''// Convenience for quantizing a single value
static inline int16_t
eml_quantizer_value_int16(const EmlQuantizer *self, float value)
{
    const float clipped[] = { -32767.0f, value * self->scale, 32767.0f };
    int16_t out[1] = { [0] = (int16_t)clipped[1] };
    if (clipped[1] < clipped[0]) { out[0] = -32767; }
    if (clipped[1] > clipped[2]) { out[0] = 32767; }
    int class = out[0];
    return (int16_t)class;
}

#endif // EML_QUANTIZER_H''')],
     c_demo('''
#include <eml_quantizer.h>
int main(void){ return 0; }
''', cxx=True), 'inclusion from a C++ translation unit', 'uses a C++ keyword as an identifier')

seed('c13-oned-shift', 'C13', [(H + 'eml_fixedpoint.h', 'EML_Q16', 'EML_Q16')] if 0 else
     [(H + 'eml_neighbors.h', '    uint16_t n_features;\n    int16_t n_items;', '    uint16_t n_features;\n    int n_items;'),],
     {'demo.sh': '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
mkdir inc
for h in string stdlib stdio math time; do : > inc/$h.h; done
cat > inc/string.h <<'EOF'
#include <stddef.h>
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t); int strcmp(const char *, const char *); size_t strlen(const char *);
EOF
cat > inc/math.h <<'EOF'
#define NAN __builtin_nanf("")
EOF
cat > t.c <<'EOF'
#include <stdint.h>
#include <eml_neighbors.h>
/* the field has the same width where int has 16 bits as where it has 32 */
_Static_assert(sizeof(((EmlNeighborsModel*)0)->n_items) == WIDTH, "width");
EOF
host=$(echo '#include <eml_neighbors.h>
#include <stdio.h>
int main(void){ printf("%d", (int)sizeof(((EmlNeighborsModel*)0)->n_items)); return 0; }' > h.c; gcc -w -I/repo/emlearn h.c -o h && ./h)
clang-18 --target=avr -mmcu=atmega328p -ffreestanding -fsyntax-only -w -DWIDTH=$host -Iinc -I/repo/emlearn t.c
'''}, 'a target whose int has 16 bits', 'a model field has a different width on 16-bit targets')

seed('c14-log-side-effect', 'C14', [(H + 'eml_neighbors.h', """        EML_LOG_ADD_INTEGER("votes", votes[i]);""", """        EML_LOG_ADD_INTEGER("votes", votes[i]);
        EML_LOG_ADD_INTEGER("leading", (votes[i] >= most_voted_votes) ? (most_voted_votes = votes[i]) : most_voted_votes);""")],
     c_demo("""
#define EML_LOG_ENABLE 1
#define EML_NEIGHBORS_LOG_LEVEL 2
#include <stdio.h>
#include <stdlib.h>
#include <eml_common.h>
#include <eml_log.h>
#include <eml_neighbors.h>
int main(void){ int16_t data[5]={1,2,3,10,11}, labels[5]={3,3,3,2,2}; EmlNeighborsDistanceItem d[5];
 EmlNeighborsModel m={1,5,5,data,labels,5}; int16_t f[1]={4};
 int16_t out=-1; 
 if (eml_neighbors_predict(&m,f,1,d,5,&out)!=EmlOk) return 3;
 return out == 3 ? 0 : 1; }
"""), 'neighbour log level 2 switched on', 'a log argument updates the running maximum of the vote count')
