prop = "P11"
needs = "a centre of mass whose nearest border of the support polygon is the edge between its last and first vertex"
breaks = "the stability index ignores this edge, so that a robot about to fall over it seems stable"
edits = [("VirtualRobot/IK/SupportPolygon.cpp", "for (size_t i = 0; i < ch->vertices.size(); i++)", "for (size_t i = 1; i < ch->vertices.size(); i++)")]
demo = r'''
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/IK/SupportPolygon.h>
#include <iostream>
#include <cmath>
using namespace VirtualRobot;
int main()
{
    auto r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='a'><RobotNode name='a'><Physics><Mass value='1' units='kg'/><CoM location='custom' x='0' y='0' z='300'/></Physics></RobotNode>"
        "<RobotNodeSet name='s' kinematicRoot='a' tcp='a'><Node name='a'/></RobotNodeSet></Robot>");
    ObstaclePtr foot = Obstacle::createBox(200, 100, 20);
    Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
    m(2, 3) = 10;
    foot->setGlobalPose(m);
    SceneObjectSetPtr feet(new SceneObjectSet("feet", foot->getCollisionChecker()));
    feet->addSceneObject(foot);
    SupportPolygon p(feet);
    const float off[4][2] = {{80, 0}, {-80, 0}, {0, 40}, {0, -40}};
    for (auto& o : off)
    {
        m.setIdentity();
        m(0, 3) = o[0];
        m(1, 3) = o[1];
        r->setGlobalPose(m);
        float want = (o[0] != 0 ? 100 - std::abs(o[0]) : 50 - std::abs(o[1])) / 50.0f;
        float got = p.getStabilityIndex(r->getRobotNodeSet("s"));
        std::cout << got << " instead of " << want << std::endl;
        if (std::abs(got - want) > 0.02f) return 1;
    }
    return 0;
}
'''
libs = "V"
