from mkseed import *
H = 'emlearn/'
seed('c05-classes-plus-one', 'C05', [(H + 'eml_trees.h', 'if (forest->n_classes > EMTREES_MAX_CLASSES) {', 'if (forest->n_classes-1 > EMTREES_MAX_CLASSES) {')],
     c_demo('''
#include <math.h>
#define EML_TREES_REGRESSION_ENABLE 0
#include <eml_trees.h>
#include <string.h>
/* 31 classes do not fit the 30 votes: must be refused */
static EmlTreesNode nodes[1] = {{0, 0, -1, -2}}; static int32_t roots[1] = {0}; static uint8_t leaves[2] = {30, 30};
int main(void){ EmlTrees t; memset(&t,0,sizeof t); t.n_nodes=1; t.nodes=nodes; t.n_trees=1; t.tree_roots=roots; t.n_leaves=2; t.leaves=leaves; t.leaf_bits=0; t.n_features=1; t.n_classes=31;
 int16_t f[1]={1}; return eml_trees_predict(&t, f, 1) < 0 ? 0 : 1; }
''', flags=ASAN), 'a forest with exactly one class more than the vote buffer holds', 'the vote buffer on the stack is overrun by one element')

seed('c05-last-layer', 'C05', [(H + 'eml_net.h', '''        if (model->layers[i].n_outputs > largest) {
            largest = model->layers[i].n_outputs;
        }
''', '''        // outputs are the inputs of the next layer
'''), (H + 'eml_net.h', '    EML_PRECONDITION(out_length >= layer->n_outputs, EmlSizeMismatch);\n', '')],
     c_demo('''
#include <eml_net.h>
#include <stdlib.h>
static const float w1[2]={1,1}, b1[1]={0}, w2[5]={1,1,1,1,1}, b2[5]={0,0,0,0,0};
int main(void){ EmlNetLayer l[2]={{1,2,w1,b1,EmlNetActivationIdentity},{5,1,w2,b2,EmlNetActivationIdentity}};
 l[0].n_outputs=1; l[0].n_inputs=2; l[1].n_outputs=5; l[1].n_inputs=1;
 float *a=malloc(2*sizeof(float)), *b=malloc(2*sizeof(float)); EmlNet m={2,l,a,b,2}; float f[2]={1,2}, out[5];
 return eml_net_regress(&m,f,2,out,5)==EmlOk ? 1 : 0; }
''', flags=ASAN), 'an output layer wider than every layer input, with activation buffers sized for the inputs', 'the last layer writes past the activation buffer')

seed('c06-set-at-end', 'C06', [(H + 'eml_vector.h', 'if (final_dest > dest.length) {', 'if (source.length > dest.length) {')],
     c_demo('''
#include <math.h>
#include <eml_common.h>
#include <eml_vector.h>
#include <stdlib.h>
int main(void){ float *d=calloc(8,sizeof(float)), s[4]={1,2,3,4}; EmlVector D={d,8}, S={s,4};
 return eml_vector_set(D,S,5) < 0 ? 0 : 1; }
''', flags=ASAN), 'copying a vector to a position so close to the end that it does not fit', 'elements are written past the end of the destination')

seed('c06-narrow-rows', 'C06', [(H + 'eml_array.h', 'EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);', 'EML_PRECONDITION(other->dims[0] <= self->dims[0], EmlSizeMismatch);')],
     c_demo('''
#include <eml_common.h>
#include <eml_array.h>
#include <stdlib.h>
int main(void){ int16_t *a=calloc(4*3,2), *b=calloc(2*3,2); EmlArray A, B;
 int32_t da[3]={4,3,0}, db[3]={2,3,0};
 if (eml_array_init_full(&A,2,da,2,(uint8_t*)a,24)!=EmlOk || eml_array_init_full(&B,2,db,2,(uint8_t*)b,12)!=EmlOk) return 2;
 return eml_array_copy_rows(&A,0,&B)==EmlOk ? 1 : 0; }
''', flags=ASAN), 'a source with fewer columns than the destination', 'rows are copied with the width of the destination, past the end of the source')

seed('c07-narrow-counter', 'C07', [(H + 'eml_net.h', '''    for (size_t i = 0; i < input_length; i++) {
        sum += expf(input[i] - input_max);
    }''', '''    for (uint8_t i = 0; i < input_length; i++) {
        sum += expf(input[i] - input_max);
    }''')],
     c_demo('''
#include <eml_net.h>
#include <unistd.h>
#include <stdlib.h>
static float w[300], b[300], a1[300], a2[300];
int main(void){ alarm(5); float in[1]={1}, out[300]; 
 return eml_net_forward(in,1,w,b,EmlNetActivationSoftmax,out,300)==EmlOk ? 0 : 1; }
'''), 'a softmax layer with more than 255 outputs', 'the counter wraps around and the loop never ends')

seed('c07-fft-zero', 'C07', [(H + 'eml_fft.h', 'for (size_t temp = n; temp > 1U; temp >>= 1)', 'for (size_t temp = n; temp != 1U; temp >>= 1)')],
     c_demo('''
#include <math.h>
#include <eml_common.h>
#include <eml_fft.h>
#include <unistd.h>
int main(void){ alarm(5); float x[1]={0}, y[1]={0}; EmlFFT f={0,x,y}; (void)eml_fft_forward(f,x,y,0); return 0; }
'''), 'a transform of length zero', 'the loop that counts the levels never ends')

seed('c08-fft-unchecked', 'C08', [(H + 'eml_audio.h', 'EML_CHECK_ERROR(eml_fft_forward(fft, inout.data, temp.data, inout.length));', 'eml_fft_forward(fft, inout.data, temp.data, inout.length);')],
     c_demo('''
#include <math.h>
#include <eml_common.h>
#include <eml_fft.h>
#include <eml_vector.h>
#include <eml_audio.h>
int main(void){ static float s[256], c[256], io[500], tmp[500]; EmlFFT fft={250,s,c}; EmlAudioMel mel={4,0.0f,4000.0f,500,8000};
 EmlVector a={io,500}, b={tmp,500}; return eml_audio_melspectrogram(mel,fft,a,b)==EmlOk ? 1 : 0; }
'''), 'a transform length that is not a power of two', 'a failing transform is ignored and the untransformed audio is reported as a spectrum')

seed('c08-header-seek', 'C08', [(H + 'eml_csv.h', '''    // Seek to start of data (after end of header)
    self->stream_location = characters_read+1;
    const int seek_status = self->seek(self->stream, self->stream_location);
    if (seek_status != 0) {''', '''    // Seek to start of data (after end of header)
    self->stream_location = characters_read+1;
    const int seek_status = self->seek(self->stream, self->stream_location);
    if (seek_status > 0) {''')],
     c_demo('''
#include <eml_common.h>
#include <eml_io.h>
#include <eml_csv.h>
#include <string.h>
static int rd(void *c, uint8_t *b, size_t n){ const char *t="a,b\\n1,2\\n"; size_t l=strlen(t); if (l>n) l=n; memcpy(b,t,l); return (int)l; }
static int sk(void *c, size_t p){ return -1; }
int main(void){ EmlCsvReader r={0}; r.read=rd; r.seek=sk; char buf[64]; char *cols[4]; return eml_csv_reader_read_header(&r,buf,64,cols,4)==EmlOk ? 1 : 0; }
'''), 'a stream whose seek fails with a negative number', 'a failing seek is reported as success')

seed('c09-longer-input', 'C09', [(H + 'eml_net.h', 'EML_PRECONDITION(features_length == model->layers[0].n_inputs, EmlSizeMismatch);', 'EML_PRECONDITION(features_length >= model->layers[0].n_inputs, EmlSizeMismatch);')],
     c_demo('''
#include <eml_net.h>
static const float w1[2]={1,1}, b1[1]={0}, w2[2]={1,1}, b2[2]={0,0};
int main(void){ EmlNetLayer l[2]; l[0].n_outputs=1; l[0].n_inputs=2; l[0].weights=w1; l[0].biases=b1; l[0].activation=EmlNetActivationRelu;
 l[1].n_outputs=2; l[1].n_inputs=1; l[1].weights=w2; l[1].biases=b2; l[1].activation=EmlNetActivationSoftmax;
 float a[2], b[2]; EmlNet m={2,l,a,b,2}; float f[3]={1,2,3}; return eml_net_predict(&m,f,3) < 0 ? 0 : 1; }
'''), 'a row with more values than the model has inputs', 'a wrong number of features gives a prediction instead of an error')

seed('c09-knn-features', 'C09', [(H + 'eml_neighbors.h', 'EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);', 'EML_PRECONDITION(features_length <= self->n_features, EmlSizeMismatch);')],
     c_demo('''
#include <eml_common.h>
#include <stdlib.h>
#include <eml_neighbors.h>
int main(void){ int16_t data[6]={1,1,5,5,100,100}, labels[3]={0,1,2}; EmlNeighborsDistanceItem d[3];
 EmlNeighborsModel m={2,3,3,data,labels,1}; int16_t f[1]={4}, out=0; return eml_neighbors_predict(&m,f,1,d,3,&out)==EmlOk ? 1 : 0; }
'''), 'a row with fewer values than the model has features', 'the distances use only some of the features, and a class is returned')

seed('c10-csv-columns', 'C10', [(H + 'eml_csv.h', '''        printf("uncorrect-columns read=%d \\n", columns_read);
#endif
        return -EmlUnknownError;''', '''        printf("uncorrect-columns read=%d \\n", columns_read);
#endif
        return EmlUnknownError;''')],
     c_demo('''
#include <eml_common.h>
#include <eml_io.h>
#include <eml_csv.h>
#include <string.h>
static const char *t="a,b\\n1,2,3\\n"; static size_t pos;
static int rd(void *c, uint8_t *b, size_t n){ size_t l=strlen(t+pos); if (l>n) l=n; memcpy(b,t+pos,l); return (int)l; }
static int sk(void *c, size_t p){ pos=p; return 0; }
int main(void){ EmlCsvReader r={0}; r.read=rd; r.seek=sk; char buf[64]; char *cols[8]; if (eml_csv_reader_read_header(&r,buf,64,cols,8)!=EmlOk) return 2;
 return eml_csv_reader_read_data(&r,buf,64,cols,8) < 0 ? 0 : 1; }
'''), 'a row with more columns than the header', 'the error code is returned as a number of columns')

seed('c03-quantizer-clamp', 'C03', [(H + 'eml_quantizer.h', '''        float scaled = values[i] * self->scale;
        if (scaled < min_value) {
            underflows += 1;
            scaled = min_value;
        }
        if (scaled > max_value) {
            overflows += 1;
            scaled = max_value;
        }
''', '''        float scaled = values[i] * self->scale;
        if (scaled < min_value) {
            underflows += 1;
            scaled = min_value;
            values[i] = min_value / self->scale;
        }
        if (scaled > max_value) {
            overflows += 1;
            scaled = max_value;
            values[i] = max_value / self->scale;
        }
''')],
     c_demo('''
#include <eml_common.h>
#include <eml_quantizer.h>
int main(void){ EmlQuantizer q={100.0f}; float v[2]={1.0f,1000.0f}; int16_t o[2]; if (eml_quantizer_forward_int16(&q,v,2,o,2)!=EmlOk) return 2; return v[1]==1000.0f ? 0 : 1; }
'''), 'a value outside the range of the quantizer', 'the input array is changed')
